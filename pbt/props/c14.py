import random
import types

from hypothesis import strategies as st

from .. import models as M
from ..core import Prop, require
from .c06 import make_objective, objective_exprs, value, better


class Armed(Exception):
    """Raised by a user-defined constraint on demand."""


class FailingConstraint(M.Constraint):
    """A user-defined constraint that is always satisfied; when armed it raises, or solves something else meanwhile."""

    def __init__(self, names, state):
        super().__init__(names)
        self._state = state

    def evaluate(self, substitution):
        left = self._state["left"]
        inner = self._state.get("inner")
        if inner is not None and left is not None:
            self._state["left"] = left - 1 if left else None
            if left == 0:
                inner()
        elif left is not None:
            if left == 0:
                self._state["raised"] = True
                raise Armed()
            self._state["left"] = left - 1
        return True


@st.composite
def cases(draw, tier):
    spec = draw(M.mixed_specs(tier, M.model_specs(min_vars=1, max_vars=4, max_dom=4, max_cons=3, max_space=60, extra=False),
                              most=40, extra=False, kinds=("wide", "constraints", "groups")))
    nv = len(spec["vars"])
    late = draw(st.lists(M.constraints(spec, None), max_size=3))
    if draw(st.integers(0, 3)) == 0:        # a variable is declared in between
        dom = draw(st.lists(st.integers(-2, 3), min_size=1, max_size=3, unique=True))
        late.insert(draw(st.integers(0, len(late))), ["var", {"name": draw(st.sampled_from([None, "late"])), "dom": dom, "kind": "list"}])
    objs = draw(st.lists(st.tuples(st.sampled_from(["min", "max"]), objective_exprs(spec, tier)).map(list),
                         min_size=1, max_size=2))
    cfg = M.CONFIG
    k = st.integers(0, 4)
    op = st.one_of(
        st.tuples(st.just("all"), cfg), st.tuples(st.just("all"), cfg),
        st.tuples(st.just("limit"), cfg, st.integers(0, 3)),
        st.tuples(st.just("open"), cfg), st.tuples(st.just("open"), cfg), st.tuples(st.just("openopt"), cfg, st.integers(0, 1)),
        st.tuples(st.just("next"), st.integers(0, 5), k), st.tuples(st.just("next"), st.integers(0, 5), k),
        st.tuples(st.just("close"), st.integers(0, 5)),
        st.tuples(st.just("inter"), st.lists(st.tuples(cfg, st.sampled_from(["all", "all", "opt"])).map(list), min_size=2, max_size=3),
                  st.lists(st.integers(0, 2), min_size=3, max_size=12)),
        st.tuples(st.just("opt"), cfg, st.integers(0, 1)),
        st.tuples(st.just("seq"), cfg, st.integers(0, 1)),
        st.tuples(st.just("add")), st.tuples(st.just("add")),
        st.tuples(st.just("other"), cfg, st.sampled_from(["all", "all", "opt"]), st.booleans(), st.sampled_from(["shift", "reverse"])),
        st.tuples(st.just("fail"), cfg, st.integers(0, 12), st.booleans()),
        st.tuples(st.just("nested"), cfg, cfg, st.integers(0, 12), st.sampled_from(["fresh", "fresh", "same"]), st.sampled_from(["all", "opt"]), st.booleans()),
        st.tuples(st.just("mutate"), st.integers(0, 9), st.sampled_from(["clear", "change", "add"])),
    ).map(list)
    ops = draw(st.lists(op, min_size=4, max_size=12 if tier == "quick" else 24)) + [["all", draw(cfg)]]
    if late and draw(st.integers(0, 3)) == 0:       # something is added while an enumeration is under way
        at = draw(st.integers(0, len(ops) - 1))
        ops[at:at] = [["open", draw(cfg)] if draw(st.booleans()) else ["openopt", draw(cfg), 0], ["next", 5, draw(st.integers(1, 2))],
                      ["next", 0, 1], ["add"], ["next", 0, draw(st.integers(0, 2))]]
    if draw(st.integers(0, 29 if len(spec["cons"]) < 10 else 1)) == 0:      # one solver used again and again
        ops.insert(draw(st.integers(0, len(ops) - 1)), ["often", ops[-1][1], draw(st.integers(10, 70 if tier == "quick" else 300))])
    return {"spec": spec, "late": late, "objs": objs, "ops": ops, "share": draw(st.booleans()),
            "armed": list(draw(st.permutations(range(nv))))[:draw(st.integers(1, nv))]}


class C14(Prop):
    id = "C14"
    rule = ("random histories on one model with one solver per configuration: complete, limited, abandoned and "
            "interleaved enumerations and optimisations, user constraints that raise, yielded solutions modified, "
            "constraints added (also while enumerations are open), other models of the same names in between; non-trivial: some enumeration or optimisation follows or overlaps another that was "
            "abandoned, limited, interleaved, failed or was an optimisation")
    oracle = ("every result compared with that of a fresh model and solver (same order for deterministic policies, set "
              "for RANDOM) and with brute force; snapshot of decision variables, domains and constraints")
    quick = 10000
    thorough = 120000
    budget = 40_000_000     # one solver used hundreds of times on a wide model

    def strategy(self, tier):
        return cases(tier)

    def extend(self, b, item):
        """Something is declared later than the rest."""
        if item[0] == "var":
            i = len(b.names)
            b.vars[i] = b.model.add_int_variable(list(item[1]["dom"]), name=item[1]["name"])
            b.names.append(b.vars[i].name)
        else:
            M.add(b, item)

    def fresh(self, case, n_late):
        spec = case["spec"]
        b = M.build(spec)
        state = {"left": None, "raised": False}
        b.model.add_constraint(FailingConstraint([b.names[i] for i in case["armed"]], state))
        for item in case["late"][:n_late]:      # after the failing one, as in the history
            self.extend(b, item)
        return spec, b, state

    def check(self, case, rec):
        random.seed(7)
        spec0 = case["spec"]
        params = M.param_values(spec0)
        # the model of the history: constraints are added one by one, the failing one first of the late ones
        _, b, state = self.fresh(case, 0)
        n_late = 0
        memo = {}
        domains = {n: list(i.domain) for n, i in b.model.variables().items() if i.domain is not None}
        cons = list(b.model.constraints())
        solvers = {}
        gens = []           # [generator, configuration, seen, kind, objective, late items when it started]
        widths = {0: len(b.names)}      # variables after so many late items
        others = {}
        held = []           # [dict yielded, copy]
        dirty = False
        objectives = {}

        def objective(i):
            """An objective of the history: one object for all optimisations, or one for each."""
            if not case.get("share"):
                return make_objective(case["objs"][i], b)
            if i not in objectives:
                objectives[i] = make_objective(case["objs"][i], b)
            else:
                rec.label("objective-again")
            return objectives[i]

        def solver(cfg):
            key = (cfg["policy"], cfg["compile"])
            if key not in solvers:
                solvers[key] = M.make_solver(cfg)
            return solvers[key]

        def reference(cfg, what, obj=None, at=None):
            """Results of a fresh model and a fresh solver. None: order not determined (RANDOM)."""
            at = n_late if at is None else at
            key = (cfg["policy"], cfg["compile"], at, what, obj)
            if key not in memo:
                spec, fb, _ = self.fresh(case, at)
                s = M.make_solver(cfg)
                if what == "all":
                    r = M.enumerate_solutions(s.solve(fb.model), len(sols(at)) + 50, fb)
                else:
                    r = [M.as_tuple(x.solution, fb) for x in s.optimize(fb.model, make_objective(case["objs"][obj], fb))]
                memo[key] = r
            return memo[key]

        def sols(at=None):
            at = n_late if at is None else at
            key = ("sols", at)
            if key not in memo:
                late = case["late"][:at]
                spec = dict(spec0, vars=spec0["vars"] + [x[1] for x in late if x[0] == "var"])
                memo[key] = M.ref_solutions(spec, cons=spec0["cons"] + [x for x in late if x[0] != "var"])
            return memo[key]

        def take(sol, at=None):
            t = M.as_tuple(sol, b if at is None else types.SimpleNamespace(names=b.names[:widths[at]]))
            held.append([sol, dict(sol)])
            return t

        def verify_model():
            now = {n: list(i.domain) for n, i in b.model.variables().items() if i.domain is not None}
            require(now == domains and list(now) == list(domains), "decision variables or domains changed: {} -> {}", domains, now)
            mine = list(b.model.constraints())
            require(len(mine) == len(cons) and all(x is y for x, y in zip(mine, cons)), "constraints changed: {} -> {}", cons, mine)

        def compare(got, cfg, what, obj=None, prefix=None, at=None):
            want = reference(cfg, what, obj, at)
            if cfg["policy"] == "RANDOM":
                if what == "all":
                    want = sols(at)
                    require(len(set(got)) == len(got) and set(got) <= set(want), "RANDOM: {} yielded, solutions {}", got[:5], want[:5])
                    require(prefix is not None or len(got) == len(want), "RANDOM: {} of {} solutions", len(got), len(want))
                return
            if prefix is not None:
                want = want[:prefix]
            require(got == want, "{} {}: {} but a fresh model and solver give {}", what, cfg, got[:6], want[:6])

        for op in case["ops"]:
            k = op[0]
            if k == "inter":
                # two or three enumerations / optimisations advanced in a given interleaving, then run to the end
                mine = []
                for cfg, what in op[1]:
                    it = solver(cfg).solve(b.model) if what == "all" else \
                        solver(cfg).optimize(b.model, objective(0))
                    mine.append([it, cfg, [], what, 0 if what == "opt" else None])
                live = list(mine)
                turn = 0
                while live:
                    g = live[(op[2][turn] if turn < len(op[2]) else 0) % len(live)]
                    turn += 1
                    x = next(g[0], None)
                    if x is None:
                        live.remove(g)
                        compare(g[2], g[1], g[3], g[4])
                        if g[3] == "opt":
                            self.check_end(g[2], sols(), case["objs"][0], params)
                        continue
                    if sum(1 for m in mine if m[2]) > 1:
                        rec.label("interleaved")
                        rec.nontrivial = True
                    g[2].append(take(x if g[3] == "all" else x.solution))
                    require(len(g[2]) <= len(sols()) + 50, "endless enumeration")
                    compare(g[2], g[1], g[3], g[4], prefix=len(g[2]))
            elif k == "often":
                s = solver(op[1])
                for i in range(op[2]):
                    got = [take(sol) for sol in s.solve(b.model, limit=1 + i % 3)]
                    compare(got, op[1], "all", prefix=1 + i % 3)
                    require(len(got) == min(1 + i % 3, len(sols())), "{} solutions with limit {} of {}", len(got), 1 + i % 3, len(sols()))
                    del held[20:]
                rec.label("often")
            elif k in ("all", "limit"):
                cfg = op[1]
                kw = {"limit": op[2]} if k == "limit" else {}
                s = solver(cfg)
                got = []
                for sol in s.solve(b.model, **kw):
                    got.append(take(sol))
                    require(len(got) <= len(sols()) + 50, "endless enumeration")
                compare(got, cfg, "all", prefix=op[2] if k == "limit" else None)
                if k == "all":
                    require(set(got) == set(sols()) and len(got) == len(sols()), "{}: {} of {} solutions", cfg, len(got), len(sols()))
                require(s.get_stats().count == len(got), "count {} after {} solutions", s.get_stats().count, len(got))
                rec.nontrivial = rec.nontrivial or (dirty and len(sols()) > 1)
                dirty = dirty or k == "limit"
                rec.label(k)
            elif k == "open":
                gens.append([solver(op[1]).solve(b.model), op[1], [], "all", None, None])
            elif k == "openopt":
                obj = op[2] % len(case["objs"])
                gens.append([solver(op[1]).optimize(b.model, objective(obj)), op[1], [], "opt", obj, None])
            elif k == "next":
                if not gens:
                    continue
                g = gens[op[1] % len(gens)]
                for _ in range(op[2]):
                    if g[5] is None:        # it starts with the model as it is now
                        g[5] = n_late
                    rec.label_if(g[5] != n_late, "continued-after-addition")
                    try:
                        x = next(g[0])
                    except StopIteration:
                        compare(g[2], g[1], g[3], g[4], at=g[5])
                        if g[3] == "opt":
                            self.check_end(g[2], sols(g[5]), case["objs"][g[4]], params)
                        gens.remove(g)
                        break
                    g[2].append(take(x if g[3] == "all" else x.solution, g[5]))
                    compare(g[2], g[1], g[3], g[4], prefix=len(g[2]), at=g[5])
                dirty = True
                rec.label_if(len([x for x in gens if x[2]]) > 1, "interleaved")
                rec.nontrivial = rec.nontrivial or (len([x for x in gens if x[2]]) > 1)
            elif k == "close":
                if gens:
                    g = gens.pop(op[1] % len(gens))
                    g[0].close()
                    rec.label("abandoned")
            elif k in ("opt", "seq"):
                cfg, obj = op[1], op[2] % len(case["objs"])
                o = case["objs"][obj]
                s = solver(cfg)
                if k == "opt":
                    r = s.optimal_solution(b.model, objective(obj))
                    if r.solution is None:
                        require(not sols(), "no optimum although feasible")
                    else:
                        t = take(r.solution)
                        require(t in sols(), "{} is not feasible", t)
                        self.check_end([t], sols(), o, params)
                        if cfg["policy"] != "RANDOM":
                            want = reference(cfg, "opt", obj)
                            require(want and t == want[-1], "optimum {} but a fresh model and solver give {}", t, want[-1:])
                else:
                    got = [take(x.solution) for x in s.optimize(b.model, objective(obj))]
                    compare(got, cfg, "opt", obj)
                    self.check_end(got, sols(), o, params)
                dirty = True
                rec.label("optimised")
            elif k == "add":
                if n_late == len(case["late"]):
                    continue
                verify_model()
                item = case["late"][n_late]
                self.extend(b, item)
                n_late += 1
                widths[n_late] = len(b.names)
                cons = list(b.model.constraints())
                if item[0] == "var":
                    domains[b.names[-1]] = list(item[1]["dom"])
                    rec.label("variable-added")
                else:
                    rec.label("constraint-added")
            elif k == "fail":
                state["left"], state["raised"] = op[2], False
                cfg = op[1]
                got = []
                try:
                    if op[3]:
                        for x in solver(cfg).optimize(b.model, objective(0)):
                            got.append(take(x.solution))
                    else:
                        for sol in solver(cfg).solve(b.model):
                            got.append(take(sol))
                except Armed:
                    rec.label("constraint-raised")
                    dirty = True
                    compare(got, cfg, "opt" if op[3] else "all", 0 if op[3] else None, prefix=len(got))
                else:
                    require(not state["raised"], "an error raised by a user-defined constraint was swallowed")
                    compare(got, cfg, "opt" if op[3] else "all", 0 if op[3] else None)
                finally:
                    state["left"] = None
            elif k == "nested":
                # a user-defined constraint solves a problem of its own while it is evaluated
                inner_got = []

                def inner():
                    if op[4] == "fresh":
                        _, ib, _ = self.fresh(case, n_late)
                        isolver = M.make_solver(op[2])
                    else:
                        ib, isolver = b, solver(op[2])
                    if op[5] == "all":
                        inner_got.append(M.enumerate_solutions(isolver.solve(ib.model), len(sols()) + 50, ib))
                    else:
                        inner_got.append([M.as_tuple(x.solution, ib)
                                          for x in isolver.optimize(ib.model, make_objective(case["objs"][0], ib))])

                state["left"], state["inner"] = op[3], inner
                cfg = op[1]
                try:
                    if op[6]:
                        got = [take(x.solution) for x in solver(cfg).optimize(b.model, objective(0))]
                    else:
                        got = [take(sol) for sol in solver(cfg).solve(b.model)]
                finally:
                    state["left"] = state["inner"] = None
                compare(got, cfg, "opt" if op[6] else "all", 0 if op[6] else None)
                for r in inner_got:
                    compare(r, op[2], op[5], 0 if op[5] == "opt" else None)
                    rec.label("nested")
                    rec.nontrivial = rec.nontrivial or len(sols()) > 1
            elif k == "other":
                self.other(case, op, solver(op[1]), others, params)
                rec.label("other-model")
            elif k == "mutate" and held:
                h = held[op[1] % len(held)]
                name = b.names[0]
                if op[2] == "clear":
                    h[0].clear()
                elif op[2] == "change":
                    h[0][name] = 987654
                else:
                    h[0]["intruder"] = 1
                h[1] = dict(h[0])
                rec.label("solution-modified")
            verify_model()
        for g in gens:
            if g[5] is None:
                g[5] = n_late
            for x in g[0]:
                g[2].append(take(x if g[3] == "all" else x.solution, g[5]))
                require(len(g[2]) <= len(sols(g[5])) + 50, "endless enumeration")
            compare(g[2], g[1], g[3], g[4], at=g[5])
        for d, copy in held:
            require(dict(d) == copy, "a yielded solution changed later: {} -> {}", copy, d)
        verify_model()

    def other(self, case, op, solver, others, params):
        """The solver solves another model with variables of the same names in between."""
        cfg, what, transient, how = op[1:]
        spec = case["spec"]
        space = 1
        for v in spec["vars"]:
            space *= len(v["dom"])
        if how == "shift" and space <= 200:
            spec = dict(spec, vars=[dict(v, dom=[x + 1 for x in v["dom"]], kind="list") for v in spec["vars"]])
        else:
            spec = dict(spec, vars=[dict(v, dom=list(v["dom"])[::-1], kind="list") for v in spec["vars"]])
        key = str(spec["vars"])
        if key not in others:
            others[key] = [M.ref_solutions(spec), M.build(spec)]
        want, b = others[key]
        if transient:
            b = M.build(spec)

        def run(solver, b):
            if what == "all":
                return M.enumerate_solutions(solver.solve(b.model), len(want) + 50, b)
            return [M.as_tuple(x.solution, b) for x in solver.optimize(b.model, make_objective(case["objs"][0], b))]

        got = run(solver, b)
        if what == "opt":
            self.check_end(got, want, case["objs"][0], params)
        require(set(got) <= set(want) and len(set(got)) == len(got), "another model: {} yielded, solutions {}", got[:5], want[:5])
        require(what == "opt" or len(got) == len(want), "another model: {} of {} solutions", len(got), len(want))
        if cfg["policy"] != "RANDOM":
            again = run(M.make_solver(cfg), M.build(spec))
            require(got == again, "another model, {} {}: {} but a fresh solver gives {}", what, cfg, got[:6], again[:6])

    def check_end(self, got, sols, o, params):
        require(bool(got) == bool(sols), "{} yielded, {} feasible", len(got), len(sols))
        for t in sols:
            require(not better(o, t, got[-1], params), "{} is better than the optimum {} for {}", t, got[-1], o)


PROP = C14()
