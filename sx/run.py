"""Path exploration, assertion solving, counterexample replay and evidence."""
from __future__ import annotations

import json
import math
import os
import random
import select as _select
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

warnings.simplefilter("ignore")

OUTCOMES = ("ok", "fail", "error", "discard", "ambiguous", "timeout")


class Stop(BaseException):
    """A violation has been confirmed: stop exploring this configuration."""


# ====================================================================================
# The concrete side: a forked process that runs the harness on the unpatched code
# ====================================================================================
def _worker_main(rfd, wfd, harness, params, scratch):
    os.setpgid(0, 0)
    from sx import loader
    from sx.env import Ambiguous, CheckFailed, ConcreteEnv, Discard
    loader.install_concrete()
    _isolate(scratch)
    rf = os.fdopen(rfd, "r")
    wf = os.fdopen(wfd, "w")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    for line in rf:
        req = json.loads(line)
        inputs = req["inputs"]
        loader.purge()
        cwd = os.path.join(scratch, "w")
        os.makedirs(cwd, exist_ok=True)
        env = ConcreteEnv(cwd, inputs)
        res = {"status": "ok", "label": "", "detail": ""}
        old = dict(os.environ)
        try:
            env.setup()
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                harness(env, **params)
        except CheckFailed as e:
            res.update(status="fail", label=e.label, detail=str(e.detail)[:600])
        except Ambiguous as e:
            res.update(status="ambiguous", detail=str(e)[:200])
        except Discard as e:
            res.update(status="discard", detail=str(e)[:200])
        except Exception as e:
            res.update(status="error", label="exception " + type(e).__name__,
                       detail=("%s | %s" % (e, traceback.format_exc()[-900:])))
        finally:
            os.environ.clear()
            os.environ.update(old)
            os.chdir("/")
        res["labels"] = env.labels
        wf.write(json.dumps(res) + "\n")
        wf.flush()
    os._exit(0)


def _isolate(scratch):
    for d in ("h", "t"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    os.environ["HOME"] = os.path.join(scratch, "h")
    os.environ["TMPDIR"] = os.path.join(scratch, "t")
    os.environ["XDG_DATA_HOME"] = os.path.join(scratch, "h")
    os.environ["XDG_CONFIG_HOME"] = os.path.join(scratch, "h")
    os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "h")
    import tempfile
    tempfile.tempdir = None


class Worker:
    def __init__(self, harness, params, scratch):
        self.args = (harness, params, scratch)
        self.proc = None
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                _worker_main(r1, w2, *self.args)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, os.fdopen(w1, "w"), os.fdopen(r2, "r")
        self.dead = False

    def run(self, inputs, timeout=60):
        if self.dead:
            return {"status": "timeout", "label": "", "detail": "the concrete worker has ended", "labels": {}}
        try:
            self.w.write(json.dumps({"inputs": inputs}) + "\n")
            self.w.flush()
            ready, _, _ = _select.select([self.r], [], [], timeout)
            line = self.r.readline() if ready else ""
        except OSError:
            line = ""
        if not line:
            self.kill()
            return {"status": "timeout", "label": "", "detail": "no answer from the concrete run", "labels": {}}
        return json.loads(line)

    def kill(self):
        self.dead = True
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


# ====================================================================================
# The symbolic side
# ====================================================================================
class Explorer:
    def __init__(self, cfg, tier, seed, worker, scratch):
        from sx import core
        self.cfg, self.tier, self.seed, self.worker, self.scratch = cfg, tier, seed, worker, scratch
        self.rng = random.Random(seed)
        self.stats = core.Stats()
        self.violation = None
        self.undecided = []
        self.samples = []
        self.transitions = 0
        self.budget = cfg.budget
        self.funcs = {}
        self.complete = False
        self.labels = {}
        self.fallback_runs = 0

    # -- coverage of the code under test
    def _monitor(self):
        from sx.loader import REPO
        mon = sys.monitoring
        tool = 4
        mon.use_tool_id(tool, "sx")
        pre = os.path.join(REPO, "pyspectral") + os.sep
        scripts = os.path.join(REPO, "rsr_convert_scripts") + os.sep

        def start(code, off):
            if code.co_filename.startswith((pre, scripts)):
                if not code.co_name.startswith("<"):
                    k = code.co_filename[len(pre if code.co_filename.startswith(pre) else REPO + os.sep):] + "::" + code.co_qualname
                    self.funcs[k] = self.funcs.get(k, 0) + 1
            return mon.DISABLE
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)

    # -- exploration
    def explore(self):
        from sx import core, loader
        self._monitor()
        t_end = time.time() + self.budget
        self.t_end = t_end
        trace = core.Trace()
        try:
            while True:
                self.path(trace, t_end)
                self.stats.paths += 1
                while trace and not (trace[-1][1] and trace[-1][0]):
                    trace.pop()
                if not trace:
                    self.complete = True
                    break
                trace[-1][0] = False
                trace[-1][1] = False
                if time.time() > t_end:
                    self.undecided.append({"why": "time budget of %d s used up with paths left" % self.budget})
                    break
        except Stop:
            pass
        except core.BudgetExceeded:
            self.undecided.append({"why": "time budget of %d s used up with paths left" % self.budget})
        return self

    def path(self, trace, t_end):
        from sx import core, loader
        from sx.env import SymEnv
        loader.purge()
        c = core.Ctx(trace, self.stats, t_end, branch_ms=self.cfg.branch_ms)
        core._Ctx.cur = c
        cwd = os.path.join(self.scratch, "s")
        os.makedirs(cwd, exist_ok=True)
        env = SymEnv(cwd, c, self)
        self.env = env
        self.path_undecided = None
        old = dict(os.environ)
        n0 = len(trace)
        try:
            env.setup()
            with np.errstate(all="ignore"):
                self.cfg.fn(env, **self.cfg.params)
        except core.PathAbort:
            self.stats.aborted += 1
            return
        except (Stop, core.BudgetExceeded):
            raise
        except (core.Unsupported,) as e:
            self.on_unsupported(c, e)
            return
        except RecursionError as e:
            self.on_unsupported(c, e)
            return
        except Exception as e:
            self.on_exception(c, e)
            return
        finally:
            self.transitions += max(0, len(trace) - n0)
            os.environ.clear()
            os.environ.update(old)
            os.chdir("/")
            for k, v in env.labels.items():
                self.labels[k] = self.labels.get(k, 0) + v
        self.validate(c)

    # -- solving
    def solve(self, c, extra, ms):
        """(result, model) of the path condition and the extra constraints."""
        import z3
        t = time.time()
        self.stats.queries += 1
        s = z3.Solver()
        s.set("timeout", ms)
        s.set("random_seed", self.seed % 1000)
        for a in c.cons:
            s.add(a)
        for e in extra:
            s.add(e)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            hasint = any(a.isint for a in c.atoms) or any(v[0] in ("zint", "str") for v in c.inputs.values())
            if not hasint:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                s2.set("timeout", ms)
                for a in list(c.cons) + list(extra):
                    s2.add(a)
                try:
                    r = s2.check()
                    if r == z3.sat:
                        m = s2.model()
                except z3.Z3Exception:
                    r = z3.unknown
        if r == z3.unknown and shutil.which("cvc5"):
            try:
                txt = "(set-logic ALL)\n" + s.to_smt2()
                p = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--nl-cov", "-q", "-"], input=txt, capture_output=True,
                                   text=True, timeout=ms / 1000 + 5)
                if p.stdout.strip().startswith("unsat"):
                    r = z3.unsat
            except (subprocess.SubprocessError, OSError):
                pass
        self.stats.solver_s += time.time() - t
        return r, m

    def decide(self, env, label, z, detail):
        import z3
        c = env.ctx
        self.stats.asserts += 1
        if z is True or (not isinstance(z, bool) and z3.is_true(z)):
            self.stats.trivial_asserts += 1
            return
        if z is False:
            neg = []
        else:
            neg = [z3.Not(z)]
        ms = self.cfg.assert_ms
        refine = []
        unknowns = 0
        confirmed = False
        boxes = [None, "interior", "prefer"] + ["random"] * 3
        for attempt in range(12):
            if time.time() > self.t_end:
                from sx.core import BudgetExceeded
                raise BudgetExceeded("time budget")
            box = boxes[attempt % len(boxes)]
            extra = neg + refine + self.box(c, box)
            r, m = self.solve(c, extra, ms)
            if r == z3.unsat:
                if box is None or attempt == 0:
                    if neg:
                        c.assume(z)
                    return
                # only the box is infeasible: decide without it
                continue
            if r == z3.unknown:
                unknowns += 1
                if unknowns == 1:
                    # inputs of this path are often enough to see a violation that the solver cannot construct
                    for inp in self.some_inputs(c, 4):
                        res = self.worker.run(inp)
                        if res["status"] in ("fail", "error"):
                            self.confirm(label, detail, inp, res)
                if unknowns >= 2 and box is None:
                    break
                continue
            inputs, m = self.inputs(c, m, extra, ms)
            if inputs is not None:
                res = self.worker.run(inputs)
                if res["status"] in ("fail", "error"):
                    self.confirm(label, detail, inputs, res)
            refine += self.point_lemmas(c, m)
        else:
            # one last unrestricted query with everything learnt
            r, m = self.solve(c, neg + refine, ms * 2)
            if r == z3.unsat:
                if neg:
                    c.assume(z)
                return
        self.undecide("assertion %r: %s (%s)" % (label, "solver gave up" if r == z3.unknown else
                                                 "the solver's counterexamples do not reproduce", detail), c)
        if neg:
            c.assume(z)
            if c.check() == z3.unsat:
                from sx.core import PathAbort
                raise PathAbort("after an undecided assertion")
        else:
            from sx.core import PathAbort
            raise PathAbort("after an undecided assertion")

    def box(self, c, kind):
        """Extra constraints that keep a model away from the borders of the input domain."""
        import z3
        from sx.core import zfrac
        if kind is None:
            return []
        out = list(c.prefer)
        if kind == "prefer":
            return out
        for name, d in c.inputs.items():
            if d[0] != "real":
                continue
            a = c.atoms[d[1]]
            if a.lo is None or a.hi is None or a.lo == a.hi:
                continue
            w = a.hi - a.lo
            if kind == "interior":
                out.append(z3.And(a.z > zfrac(a.lo + w / 50), a.z < zfrac(a.hi - w / 50)))
            else:
                if self.rng.random() < 0.5:
                    u = Fraction(self.rng.randrange(0, 80), 100)
                    out.append(z3.And(a.z > zfrac(a.lo + w * u), a.z < zfrac(a.lo + w * (u + Fraction(1, 5)))))
        return out

    def val(self, m, z):
        import z3
        e = m.eval(z, model_completion=True)
        if z3.is_int_value(e):
            return Fraction(e.as_long())
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_algebraic_value(e):
            e = e.approx(25)
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        raise ValueError("no value for %s" % z)

    def inputs(self, c, m, extra, ms):
        """Concrete inputs of a model, with table entries made consistent with the lookups."""
        import z3
        from sx import core
        extra = list(extra)
        for _ in range(6):
            changed = False
            for (els, hits, _iv) in c.fcache.get("tables", []):
                for (ix, v) in hits:
                    if ix.is_const():
                        continue
                    k = int(self.val(m, c.poly_z(ix.r.num)))
                    e = els.reshape(-1)[k]
                    key = ("tabcons", id(els), ix.r.num.key(), k)
                    if key in c.fcache:
                        continue
                    c.fcache[key] = True
                    same = core._z(core.b_or(core.b_not(ix._cmp(core.Sym.const(k, core.I64), "==")),
                                             v._cmp(e, "==")))
                    c.assume(same)
                    changed = True
            if not changed:
                break
            r, m2 = self.solve(c, extra, ms)
            if r != z3.sat:
                return None, m
            m = m2
        out = {}
        for name, d in c.inputs.items():
            if d[0] in ("real", "int"):
                v = self.val(m, c.atoms[d[1]].z)
                out[name] = int(v) if d[0] == "int" else float(v)
            elif d[0] == "bool":
                out[name] = bool(z3.is_true(m.eval(d[1], model_completion=True)))
            elif d[0] == "zint":
                out[name] = int(self.val(m, d[1]))
            elif d[0] == "str":
                out[name] = d[1].model(m)
        for name, atoms, _ in getattr(c, "tables_in", []):
            for k, i in enumerate(atoms):
                if not c.atoms[i].lazy:
                    out["%s[%d]" % (name, k)] = float(self.val(m, c.atoms[i].z))
        return out, m

    def point_lemmas(self, c, m):
        """Facts about the transcendental functions around the model's arguments."""
        import z3
        from sx import core
        from sx.core import Poly, Rat, zfrac
        out = []
        eps = Fraction(1, 10 ** 12)
        for name in ("exp", "log", "cos", "arccos", "sqrt"):
            for (r, i) in c.fcache.get(name, []):
                try:
                    p, s = r.cleared()
                    den = Rat(r.num)
                    num = self.val(m, c.poly_z(r.num))
                    dv = Fraction(1)
                    for fi, e in dict(r.den or {}).items():
                        dv *= self.val(m, c.poly_z(c.factors[fi][0])) ** e
                    a0 = num / dv
                except Exception:
                    continue
                y = c.atoms[i].z
                x = float(a0)
                try:
                    f = {"exp": math.exp, "log": math.log, "cos": math.cos, "arccos": math.acos,
                         "sqrt": math.sqrt}[name](x)
                except (ValueError, OverflowError):
                    continue
                f = core.to_frac(f)
                lo, hi = f - abs(f) * eps - eps * Fraction(1, 10 ** 6), f + abs(f) * eps + eps * Fraction(1, 10 ** 6)
                d = r.add(Rat.const(a0), sub=True)
                le, ge = core._rz(d, "<="), core._rz(d.neg(), "<=")
                if name in ("exp", "log", "sqrt"):
                    out.append(z3.Implies(le, y <= zfrac(hi)))
                    out.append(z3.Implies(ge, y >= zfrac(lo)))
                elif name == "arccos" or (name == "cos" and 0 <= x <= 3.14159):
                    g = z3.BoolVal(True)
                    if name == "cos":
                        pi = Rat.const(Fraction(314159, 100000))
                        g = z3.And(core._rz(r.neg(), "<="), core._rz(r.add(pi, sub=True), "<="))
                    out.append(z3.Implies(z3.And(g, le), y >= zfrac(lo)))
                    out.append(z3.Implies(z3.And(g, ge), y <= zfrac(hi)))
                if name == "exp":
                    E = Rat(Poly.atom(i))
                    # tangent at a0 from below, and e^-x convexity from above where x - a0 < 1
                    out.append(core._rz(Rat.const(1).add(d).scale(lo).add(E, sub=True), "<="))
                    om = Rat.const(1).add(d, sub=True)
                    out.append(z3.Implies(core._rz(om.neg(), "<"),
                                          core._rz(E.mul(om).add(Rat.const(hi), sub=True), "<=")))
                elif name == "log":
                    Y = Rat(Poly.atom(i))
                    out.append(core._rz(Y.add(Rat.const(hi), sub=True).add(d.scale(1 / a0), sub=True), "<="))
        return out

    # -- outcomes
    def confirm(self, label, detail, inputs, res):
        self.violation = {"label": res.get("label") or label, "symbolic_label": label, "symbolic_detail": detail,
                          "status": res["status"], "detail": res["detail"], "inputs": inputs}
        raise Stop()

    def undecide(self, why, c=None):
        self.undecided.append({"why": why})
        self.path_undecided = why

    def some_inputs(self, c, n, extra=()):
        """Up to n diversified inputs on the current path."""
        import z3
        for k in range(n):
            kind = "interior" if k == 0 else "random"
            for kk in (kind, "prefer", None):
                r, m = self.solve(c, self.box(c, kk) + list(extra), 3000)
                if r == z3.sat:
                    try:
                        inp, m = self.inputs(c, m, list(extra), 3000)
                    except ValueError:
                        inp = None
                    if inp is not None:
                        yield inp
                    break
            if time.time() > self.t_end:
                return

    def on_exception(self, c, e):
        tb = traceback.format_exc()
        for inp in self.some_inputs(c, 3):
            res = self.worker.run(inp)
            if res["status"] in ("fail", "error"):
                self.confirm("exception " + type(e).__name__, str(e)[:300], inp, res)
        self.undecide("exception %s in the symbolic run that the code does not raise on the model: %s | %s" % (
            type(e).__name__, str(e)[:200], tb[-700:]), c)

    def on_unsupported(self, c, e):
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc()
        self.undecide("not encodable: %s" % (str(e)[:300],), c)
        n = 4 if self.fallback_runs < 200 else 1
        for inp in self.some_inputs(c, n):
            self.fallback_runs += 1
            res = self.worker.run(self.fuzz(inp))
            if res["status"] in ("fail", "error"):
                self.confirm("concrete fallback", str(e)[:200], inp, res)

    def fuzz(self, inp):
        return inp

    def validate(self, c):
        """Replay one model of the finished path against the unpatched code."""
        n = self.cfg.validate * (1 if self.tier == "quick" else 3)
        if self.stats.paths >= self.cfg.validate_paths and self.stats.paths % 16:
            n = min(n, 0)
        for inp in self.some_inputs(c, n):
            res = self.worker.run(inp)
            if res["status"] in ("fail", "error"):
                self.confirm("path validation", "the unpatched code fails on a model of an explored path", inp, res)
            if res["status"] == "ok":
                self.stats.validated += 1
                if len(self.samples) < 4:
                    self.samples.append({"inputs": inp, "outcome": "ok"})
            else:
                self.stats.skipped_validation += 1
                if res["status"] == "timeout":
                    self.undecide("concrete replay: " + res["detail"], c)


class Cfg:
    """One harness instance: a name, the harness, its parameters and bounds."""

    def __init__(self, name, fn, params=None, budget=60, must_reach=(), branch_ms=4000, assert_ms=10000, validate=1,
                 validate_paths=150, bounds=""):
        self.name, self.fn, self.params, self.budget = name, fn, params or {}, budget
        self.must_reach, self.branch_ms, self.assert_ms = tuple(must_reach), branch_ms, assert_ms
        self.validate, self.validate_paths, self.bounds = validate, validate_paths, bounds


def run_config(cfg, tier, seed, out):
    """Runs in its own process: explores one configuration and writes the result as JSON."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from sx.env import make_scratch
    scratch = make_scratch(os.path.dirname(out))
    t0 = time.time()
    worker = Worker(cfg.fn, cfg.params, scratch)
    try:
        from sx import loader
        _isolate(scratch)
        loader.install()
        ex = Explorer(cfg, tier, seed, worker, scratch)
        err = None
        try:
            ex.explore()
        except MemoryError:
            ex.undecided.append({"why": "out of memory"})
        except Exception:
            err = traceback.format_exc()
        st = ex.stats
        missing = [l for l in cfg.must_reach if l not in ex.labels]
        res = {"config": cfg.name, "violation": ex.violation, "undecided": ex.undecided[:20],
               "n_undecided": len(ex.undecided), "complete": ex.complete, "paths": st.paths,
               "aborted_paths": st.aborted, "transitions": ex.transitions, "queries": st.queries,
               "branch_queries": st.branch_queries, "asserts": st.asserts, "trivial_asserts": st.trivial_asserts,
               "validated": st.validated, "skipped_validation": st.skipped_validation,
               "unknown_branches": st.unknown_branches, "solver_s": round(st.solver_s, 3), "functions": sorted(ex.funcs),
               "labels": ex.labels, "missing_labels": missing, "samples": ex.samples, "bounds": cfg.bounds,
               "error": err, "wall_s": round(time.time() - t0, 2), "fallback_runs": ex.fallback_runs}
    except BaseException:
        res = {"config": cfg.name, "error": traceback.format_exc()}
    finally:
        worker.kill()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)
