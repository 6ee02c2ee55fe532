#!/opt/venv/bin/python
"""Driver of the property checks.

  run.py check C01 [--tier quick|thorough]   run a check (exit 0 / 1 + VIOLATION / 2 error)
  run.py replay FILE                         re-run one saved failing case
  run.py worker ...                          (internal) one shard
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
SHARDS = 8
PY = "/opt/venv/bin/python"


def load_prop(pid):
    importlib.import_module("pbt.env")
    mod = importlib.import_module("pbt.props." + pid.lower())
    return mod.PROP


def child_env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             PYTHONPYCACHEPREFIX="/nonexistent", PYTHONNOUSERSITE="1", PYTHONUTF8="1")
    e.pop("PYTHONPATH", None)
    return e


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- running one case

def run_case(prop, case, rec):
    """Raises Violation if the property fails; other exceptions are harness errors."""
    from pbt import budget, env
    from pbt.core import Violation
    import random
    random.seed(12345)
    budget.BUDGET.reset(prop.budget)
    try:
        prop.check(case, rec)
    except Violation:
        raise
    except budget.WorkBudgetExceeded as e:
        raise Violation("the code under test does not finish: {}".format(e)) from None
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        if type(e).__module__.split('.')[0] == 'hypothesis':
            raise
        tb = e.__traceback__
        inside = False
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(env.SRC):
                inside = True
            tb = tb.tb_next
        if inside or isinstance(e, RecursionError):
            raise Violation("unexpected {} from the code under test: {}\n{}".format(
                type(e).__name__, e, "".join(traceback.format_exception(e)[-6:]))) from None
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, AssertionError, SyntaxError)):
            # the check could not make sense of what it was given
            raise Violation("the code under test handed out something unexpected: {}: {}\n{}".format(
                type(e).__name__, e, "".join(traceback.format_exception(e)[-6:]))) from None
        raise
    finally:
        env.CLOCK.stop()


# ---------------------------------------------------------------- worker

def worker(args):
    from pbt import env  # noqa: F401  (first: clock wrappers, paths)
    sys.setrecursionlimit(6000)
    from pbt import budget
    from pbt.core import Violation, Recorder
    budget.install()
    prop = load_prop(args.prop)
    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "failure": None,
           "max_steps": 0, "error": None}
    labels = collections.Counter()
    nontrivial = set()
    state = {"fail": None, "msg": None, "evals": 0}
    samples = []

    def one(case):
        rec = Recorder()
        state["evals"] += 1
        try:
            run_case(prop, case, rec)
        except Violation as e:
            if state["fail"] is None:
                state["first_at"] = state["evals"]
            state["fail"], state["msg"] = case, str(e)
            raise
        if state["fail"] is None:
            res["max_steps"] = max(res["max_steps"], budget.BUDGET.count)
            labels.update(rec.labels)
            if rec.nontrivial:
                h = int.from_bytes(hashlib.blake2b(canon(case).encode(), digest_size=7).digest(), "big")
                if h not in nontrivial:
                    nontrivial.add(h)
                    if len(samples) < 2 and len(nontrivial) % 7 == 1:
                        samples.append({"case": case, "labels": sorted(rec.labels)})

    try:
        fixed = prop.fixed(args.tier)[args.shard::SHARDS]
        try:
            for case in fixed:
                one(json.loads(json.dumps(case)))
        except Violation:
            pass
        if state["fail"] is None and args.cases > 0:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase, Verbosity
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 90
            phases = [Phase.generate] if args.no_shrink else [Phase.generate, Phase.shrink]

            @hypothesis.seed(args.seed * 1000003 + args.shard)
            @settings(max_examples=args.cases, database=None, deadline=None, phases=phases,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      print_blob=False, verbosity=Verbosity.quiet, derandomize=False)
            @given(prop.strategy(args.tier))
            def campaign(case):
                one(json.loads(json.dumps(case)))
            try:
                campaign()
            except Violation:
                pass
            except hypothesis.errors.HypothesisException:
                if state["fail"] is None:
                    raise
            except BaseExceptionGroup:
                if state["fail"] is None:
                    raise
    except BaseException as e:
        if state["fail"] is None:
            res["error"] = "".join(traceback.format_exception(e))
    res["evaluations"] = state["evals"]
    if state["fail"] is not None:
        res["failure"] = {"case": state["fail"], "message": state["msg"], "at": state.get("first_at")}
    res["labels"] = dict(labels)
    res["nontrivial"] = sorted(nontrivial)
    res["samples"] = samples
    with open(args.out, "w") as f:
        json.dump(res, f)
    return 0


def replay_case(args):
    """Internal: run one case from a file, report through the exit status (0/1/2)."""
    from pbt import env  # noqa: F401
    sys.setrecursionlimit(6000)
    from pbt import budget
    from pbt.core import Violation, Recorder
    budget.install()
    with open(args.file) as f:
        rep = json.load(f)
    prop = load_prop(rep["property"])
    try:
        run_case(prop, rep["case"], Recorder())
    except Violation as e:
        print(str(e))
        return 1
    except BaseException:
        traceback.print_exc()
        return 2
    return 0


# ---------------------------------------------------------------- parent

def worker_cmd(prop, tier, seed, shard, cases, out, no_shrink=False):
    cmd = [PY, "-B", os.path.join(HERE, "run.py"), "worker", prop.id, "--tier", tier, "--seed", str(seed),
           "--shard", str(shard), "--cases", str(cases), "--out", out]
    if no_shrink:
        cmd.append("--no-shrink")
    return cmd


def hashseed_for(shard):
    return shard


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    if rep["kind"] == "case":
        p = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "replay-case", path],
                           env=child_env(rep["hashseed"]), capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    # a violation that needs the cases before it: re-run that shard
    prop = load_prop(rep["property"])
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        out = os.path.join(tmp, "o.json")
        subprocess.run(worker_cmd(prop, rep["tier"], rep["seed"], rep["shard"], rep["cases"], out, True),
                       env=child_env(rep["hashseed"]), capture_output=True)
        with open(out) as f:
            r = json.load(f)
    finally:
        shutil.rmtree(tmp)
    if r["failure"]:
        return 1, r["failure"]["message"]
    return (2, r["error"]) if r["error"] else (0, "")


def known_findings(pid):
    """Lines 'known: property=<id> case=<sha> <what>' of known_findings.txt."""
    res = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property={} ".format(pid)):
                parts = line.split(None, 3)
                res[parts[2].split("=", 1)[1]] = parts[3].strip()
    return res


def check(pid, tier, seed):
    t0 = time.time()
    prop = load_prop(pid)
    total = prop.quick if tier == "quick" else prop.thorough
    per = -(-total // SHARDS) if total else 0
    tmp = tempfile.mkdtemp(prefix="verif-")
    procs = []
    try:
        for s in range(SHARDS):
            out = os.path.join(tmp, "o{}.json".format(s))
            err = open(os.path.join(tmp, "e{}".format(s)), "w")
            procs.append((s, out, subprocess.Popen(worker_cmd(prop, tier, seed, s, per, out),
                                                   env=child_env(hashseed_for(s)), stdout=err, stderr=err)))
        results = {}
        pending = list(procs)
        failed = False
        while pending and not failed:
            for item in list(pending):
                s, out, p = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if not os.path.exists(out):
                    with open(os.path.join(tmp, "e{}".format(s))) as f:
                        results[s] = {"error": "worker died ({}): {}".format(p.returncode, f.read()[-3000:])}
                else:
                    with open(out) as f:
                        results[s] = json.load(f)
                    if results[s]["failure"]:
                        failed = True
            time.sleep(0.02)
            if time.time() - t0 > 840:
                print("error: inconclusive, out of time")
                return 2
        for s, out, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    finally:
        for s, out, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp)

    good = [r for r in results.values() if not r.get("error")]
    labels = collections.Counter()
    nontrivial = set()
    evaluations = 0
    samples = []
    for s in sorted(results):
        r = results[s]
        if "evaluations" not in r:
            continue
        labels.update(r["labels"])
        nontrivial.update(r["nontrivial"])
        evaluations += r["evaluations"]
        samples.extend(r["samples"])
    status, violations = 0, 0
    known = known_findings(pid)
    fail = [(s, r["failure"]) for s, r in sorted(results.items()) if r.get("failure")]
    message = None
    if fail:
        s, f = fail[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        digest = hashlib.sha256(canon(f["case"]).encode()).hexdigest()[:12]
        path = os.path.join(HERE, "replays", "{}-{}.json".format(pid, digest))
        rep = {"kind": "case", "property": pid, "hashseed": hashseed_for(s), "case": f["case"], "message": f["message"]}
        write_json(path, rep)
        rc, txt = replay(path)
        if rc != 1:
            rep.update(kind="campaign", tier=tier, seed=seed, shard=s, cases=per)
            write_json(path, rep)
            rc, txt = replay(path)
        if rc == 1:
            message = txt
            status, violations = 1, 1
            if digest in known:
                print("KNOWN-FINDING: property={} {}".format(pid, known[digest]))
                status, violations = 0, 0
            else:
                print("VIOLATION property={} replay={}".format(pid, path))
                print(txt.strip()[:4000])
                print("case:", canon(f["case"])[:4000])
        else:
            print("error: a failure did not reproduce ({}): {}\n{}".format(rc, f["message"], txt))
            status = 2
    errs = [r["error"] for r in results.values() if r.get("error")]
    if errs and status == 0:
        print("error in the harness:\n" + errs[0][-4000:])
        status = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "oracle": prop.oracle,
            "samples": [s for s in samples if len(canon(s)) < 6000][:4],
            "labels": dict(sorted(labels.items())),
            "max_steps_in_one_case": max([r.get("max_steps", 0) for r in good] or [0]),
        },
        "assumptions": list(prop.assumptions) + [
            "a case that makes the code under test take more than {} steps is taken not to finish".format(prop.budget)],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if message:
        ev["coverage"]["violation"] = message.strip()[:2000]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    write_json(os.path.join(HERE, "evidence", pid + ".json"), ev)
    if status == 0:
        print("ok property={} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1f}s".format(
            pid, tier, seed, evaluations, len(nontrivial), time.time() - t0))
    return status


def selftest():
    """setup_cmd: everything the checks import is there."""
    from pbt import env
    import hypothesis
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            load_prop(c["property"])
    import satisfy
    assert os.path.realpath(satisfy.__file__).startswith(os.path.realpath(env.SRC)), satisfy.__file__
    print("ok: hypothesis", hypothesis.__version__, "satisfy from", os.path.dirname(satisfy.__file__))
    return 0


def write_json(path, data):
    with open(path, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    w = sub.add_parser("worker")
    w.add_argument("prop")
    for n in ("tier", "out"):
        w.add_argument("--" + n)
    for n in ("seed", "shard", "cases"):
        w.add_argument("--" + n, type=int)
    w.add_argument("--no-shrink", action="store_true")
    sub.add_parser("selftest")
    for n in ("replay", "replay-case"):
        r = sub.add_parser(n)
        r.add_argument("file")
    args = ap.parse_args()
    if args.cmd == "selftest":
        return selftest()
    if args.cmd == "check":
        return check(args.prop, args.tier, args.seed)
    if args.cmd == "worker":
        return worker(args)
    if args.cmd == "replay-case":
        return replay_case(args)
    rc, txt = replay(os.path.abspath(args.file))
    with open(args.file) as f:
        pid = json.load(f)["property"]
    if rc == 1:
        print("VIOLATION property={} replay={}".format(pid, os.path.abspath(args.file)))
    print(txt)
    return rc


if __name__ == "__main__":
    # hash seed etc. must be right in this process too (cheap re-exec)
    if os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
        os.execve(PY, [PY, "-B"] + sys.argv, child_env(os.environ.get("PYTHONHASHSEED", "0")))
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
