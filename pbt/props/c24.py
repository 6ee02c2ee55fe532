from hypothesis import strategies as st

from ..core import Prop, require
from ..env import CLOCK
from satisfy.utils import Timer

# in units of 1/512 s, which both floats of seconds and integers of nanoseconds hold exactly
UNIT = 1 / 512
DT = st.sampled_from([1, 0, 2, 3, 7, 100, 12345, 512, 1024, 512 * 3] * 2 + [512 * 3600, 512 * 86399, 512 * 86400 * 40 + 1])
OPS = st.lists(st.tuples(st.integers(0, 1), st.one_of(
    st.sampled_from([["toggle"], ["toggle"], ["toggle"], ["toggle", 1000], ["start"], ["stop"], ["abort"], ["elapsed"], ["stats"], ["count"], ["running"]]),
    st.integers(-3, 5).map(lambda n: ["toggle", n])), DT, st.sampled_from([0, 1, 2, 3])).map(list),
    min_size=8, max_size=40)


class C24(Prop):
    id = "C24"
    rule = ("random sequences of start / stop / stop(count) / abort / queries on two timers, the clock moving by random "
            "multiples of 1/512 s between them; non-trivial: at least 2 completed runs with time in them")
    oracle = "reference model: accumulated running time and counts, exact clock owned by the harness"
    quick = 20000
    thorough = 250000
    assumptions = ("the code under test reads time through the standard `time` module functions",)

    def strategy(self, tier):
        return st.fixed_dictionaries({"ops": OPS, "t0": st.sampled_from([0, 1000, 1700000000])})

    def check(self, case, rec):
        CLOCK.start(case["t0"])
        now = 0
        timers = [Timer(), Timer()]
        model = [{"acc": 0, "count": 0, "since": None} for _ in timers]
        runs = 0

        def verify():
            for t, m in zip(timers, model):
                cur = m["acc"] + (now - m["since"] if m["since"] is not None else 0)
                require(t.elapsed() == cur, "elapsed {} instead of {}", t.elapsed(), cur)
                require(t.count() == m["count"], "count {} instead of {}", t.count(), m["count"])
                require(bool(t.running()) == (m["since"] is not None), "running() is {}", t.running())
                s = t.stats()
                require(s.count == m["count"], "stats count {} instead of {}", s.count, m["count"])
                # while running, statistics may or may not include the current run
                require(s.elapsed in ((m["acc"],) if m["since"] is None else (m["acc"], cur)),
                        "stats elapsed {} instead of {}", s.elapsed, cur)
        verify()
        for which, op, dt, look in case["ops"]:
            t, m = timers[which], model[which]
            if op[0] == "toggle":
                op = ["start"] if m["since"] is None else ["stop"] + op[1:]
            if op[0] == "start":
                bad = m["since"] is not None
                try:
                    t.start()
                    require(not bad, "starting a running timer is accepted")
                    m["since"] = now
                except RuntimeError:
                    require(bad, "start of a stopped timer refused")
                    rec.label("start-refused")
            elif op[0] == "stop":
                bad = m["since"] is None
                try:
                    if len(op) > 1:
                        t.stop(count=op[1])
                    else:
                        t.stop()
                    require(not bad, "stopping a stopped timer is accepted")
                    runs += now > m["since"]
                    m["acc"] += now - m["since"]
                    m["since"] = None
                    m["count"] += op[1] if len(op) > 1 else 1
                except RuntimeError:
                    require(bad, "stop of a running timer refused")
                    rec.label("stop-refused")
            elif op[0] == "abort":
                rec.label("abort:" + ("running" if m["since"] is not None else "stopped"))
                t.abort()
                if m["since"] is not None:
                    m["acc"] += now - m["since"]
                    m["since"] = None
            else:
                getattr(t, op[0])()
            if look & 1:            # looking at the timer must not be needed for it to be right
                verify()
            dt *= UNIT
            CLOCK.advance(dt)
            now += dt
            if look & 2:
                verify()
        verify()
        rec.nontrivial = runs >= 2


PROP = C24()
