#!/opt/venv/bin/python
"""Decide one property:  run.py PROP [--tier quick|thorough] [--case NAME]
                         run.py --replay FILE

exit 0  every obligation of every case was discharged (or the property held on
        the reduced part that could be explored, see `reduced` in the evidence)
exit 1  a counterexample was found and reproduced on the unpatched code
exit 2  no answer
"""
import argparse
import importlib
import json
import multiprocessing as mpc
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REFELLIPS_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.abspath(sys.executable) != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append(VT)
sys.setrecursionlimit(100000)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
warnings.simplefilter("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("SYMX_JOBS", "8"))


# --------------------------------------------------------------------- worker
def trace_functions(f):
    seen = set()
    base = os.path.join(REPO, "refellips") + os.sep

    def prof(frame, ev, arg):
        if ev == "call":
            co = frame.f_code
            if co.co_filename.startswith(base):
                seen.add("%s:%s" % (os.path.basename(co.co_filename), co.co_qualname))

    sys.setprofile(prof)
    try:
        f()
    finally:
        sys.setprofile(None)
    return seen


def work(L, case, budget, fixed, conn, nval):
    """runs in a forked child: explore one case symbolically."""
    import gc

    gc.disable()
    lim = int(float(os.environ.get("SYMX_MEM_GB", "7")) * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    from symx import engine, expr as X
    from symx.ctx import SymCtx

    out = dict(case=case["name"])
    t0 = time.time()
    try:
        opts = dict(case.get("engine", {}))
        E = engine.Engine(seed=SEED, deadline=t0 + budget, **opts)
        E.fixed = dict(fixed or {})
        c = SymCtx(E, L)

        def run():
            L_reset(L)
            c.reached = 0
            c.vals = []
            try:
                case["fn"](c)
            finally:
                c.close()
            tot[0] += c.reached

        tot = [0]
        funcs = set()
        first = [True]

        def run1():
            if first[0]:
                first[0] = False
                try:
                    funcs.update(trace_functions(run))
                finally:
                    pass
            else:
                run()

        E.explore(run1)
        out.update(paths=E.paths, cut=E.paths_cut, obligations=E.obl, reached=tot[0],
                   labels=E.obl_labels, undecided=E.undecided, errors=E.errors,
                   violations=E.violations[:60], stats=E.st.as_dict(),
                   excluded=sorted(E.def_excluded)[:40])
        # points for validating the encoding
        val = []
        rng = random.Random(SEED)
        idx = list(range(len(E.points)))
        rng.shuffle(idx)
        for i in idx:
            if len(val) >= nval or time.time() > t0 + budget + 20:
                break
            env = {k: v for k, v in E.points[i].items()}
            c.vals = []
            try:
                E.concolic(run, dict(env))
            except engine.PathAbort:
                continue
            except Exception as e:
                val.append(dict(env=env, exc="%s: %s" % (type(e).__name__, str(e)[:200])))
                continue
            val.append(dict(env=env, vals=c.vals))
        out["val"] = val
        out["decl"] = {k: list(v) for k, v in E.spec.items() if not (v and v[0] == "bool")}
        out["decl"] = {k: [jn(v[0]), jn(v[1])] for k, v in out["decl"].items()}
        out["pool"] = [E.points[i] for i in idx[:64]]
        out["functions"] = sorted(funcs)
    except MemoryError:
        out["errors"] = ["out of memory"]
    except BaseException as e:
        out.setdefault("errors", []).append("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-5)))
    out["wall"] = time.time() - t0
    try:
        conn.send(json.dumps(out, default=str))
    except Exception as e:
        conn.send(json.dumps(dict(case=case["name"], errors=["result not serialisable: %s" % e])))
    conn.close()
    os._exit(0)


def jn(x):
    try:
        return None if x is None else float(x)
    except TypeError:
        return None


def L_reset(L):
    """forget state that a previous run left in the package"""
    from symx import load

    del load.TOKENS[:]


def run_cases(L, cases, budget_scale, tier, fixed_of=None, nval=6, hard_extra=60, until=None):
    ctx = mpc.get_context("fork")
    todo = list(cases)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < NPROC:
            k = todo.pop(0)
            budget = k.get("budget", 100) * budget_scale
            if until is not None:
                left = until - time.time()
                if left < 3:
                    res[k["name"]] = dict(case=k["name"], errors=[], undecided=["not started: total time used up"])
                    continue
                budget = min(budget, left)
            a, b = ctx.Pipe(False)
            fx = fixed_of(k) if fixed_of else None
            p = ctx.Process(target=work, args=(L, k, budget, fx, b, nval))
            p.start()
            b.close()
            dl = time.time() + budget + hard_extra
            live[k["name"]] = (p, a, dl if until is None else min(dl, until + 20))
        if not live:
            continue
        rl = [v[1] for v in live.values()]
        ready = mpc.connection.wait(rl, timeout=1.0)
        now = time.time()
        for nm in list(live):
            p, a, dl = live[nm]
            if a in ready:
                try:
                    res[nm] = json.loads(a.recv())
                except (EOFError, OSError) as e:
                    res[nm] = dict(case=nm, errors=["worker died"])
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[nm]
            elif now > dl:
                p.kill()
                p.join(5)
                res[nm] = dict(case=nm, errors=[], undecided=["hard time limit"])
                del live[nm]
    return res


# --------------------------------------------------------------------- replay
class Server:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "symx", "concrete.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, bufsize=1, env=env, start_new_session=True)

    def ask(self, q, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {"error": "timeout"}
            line = self.p.stdout.readline()
            if not line:
                self.stop()
                return {"error": "replay process died"}
            return json.loads(line)
        except (BrokenPipeError, json.JSONDecodeError) as e:
            self.stop()
            return {"error": repr(e)}

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.p = None


def same(x, y, tol=2e-6):
    from symx.ctx import close

    if isinstance(x, list) and isinstance(y, list) and len(x) == 2 and len(y) == 2:
        return close(complex(*x), complex(*y), tol)
    if isinstance(x, list) and not isinstance(y, list):
        return close(complex(*x), y, tol)
    if isinstance(y, list) and not isinstance(x, list):
        return close(complex(*y), x, tol)
    return close(x, y, tol)


def compare(sym, conc, tol):
    """None when the encoding and the code agree, else a description"""
    if len(sym) != len(conc):
        return "different number of observations (%d vs %d)" % (len(sym), len(conc))
    for (la, va), (lb, vb) in zip(sym, conc):
        if la != lb:
            return "different observations: %s / %s" % (la, lb)
        if len(va) != len(vb):
            return "%s: different sizes" % la
        for x, y in zip(va, vb):
            if x is None or y is None:
                continue
            if not same(x, y, tol):
                return "%s: encoding %r, code %r" % (la, x, y)
    return None


# --------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import z3
        from symx import load

        L = load.load(REPO)
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        ok = str(s.check()) == "unsat" and L.pkg is not None
        print("z3", z3.get_version_string(), "refellips loads:", L.pkg is not None)
        return 0 if ok else 2
    if a.replay:
        with open(a.replay) as f:
            q = json.load(f)
        s = Server()
        r = s.ask({k: q[k] for k in ("prop", "case", "tier", "env")})
        s.stop()
        print(json.dumps({k: r.get(k) for k in ("fails", "exc", "abort", "error")}, indent=1))
        return 1 if r.get("fails") else 0
    return decide(a.prop.upper(), a.tier, a.case, a.v)


def decide(prop, tier, only, verbose):
    t0 = time.time()
    srv = Server()
    srv.start()
    mod = importlib.import_module("harness." + prop.lower())
    cases = mod.cases(tier)
    if only:
        cases = [k for k in cases if k["name"] == only]
    byname = {k["name"]: k for k in cases}
    total = float(os.environ.get("SYMX_TOTAL", "600" if tier == "quick" else "7200"))
    try:
        from symx import load

        L = load.load(REPO)
        loaderr = None
    except BaseException as e:
        L = None
        loaderr = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))
    res = run_cases(L, cases, 1.0, tier, until=t0 + 0.65 * total) if L is not None else {k["name"]: dict(case=k["name"], errors=[loaderr]) for k in cases}

    confirmed, known, problems, reduced = [], [], [], []
    validated = 0
    replays = 0
    soft_tried = soft_bad = 0

    def replay(case, env):
        nonlocal replays
        replays += 1
        return srv.ask(dict(prop=prop, case=case, tier=tier, env=env))

    def found(case, env, r, how):
        kf = byname[case].get("known")
        (known if kf else confirmed).append(dict(case=case, env=env, fails=r["fails"], exc=r.get("exc"), how=how, known=kf))

    needs_fallback = {}
    for nm, r in res.items():
        if verbose:
            print("%-40s paths %s cut %s obl %s wall %.1f und %s err %s viol %s stats %s" % (
                nm, r.get("paths"), r.get("cut"), r.get("obligations"), r.get("wall", 0), r.get("undecided"),
                r.get("errors"), len(r.get("violations") or []), r.get("stats")), flush=True)
        bad = []
        if r.get("errors"):
            bad.append("not encodable: " + r["errors"][0].strip()[:600])
        if r.get("undecided"):
            bad.append("undecided: " + r["undecided"][0][:300])
        hit = False
        softs = 0
        for v in r.get("violations") or []:
            if v.get("soft"):
                softs += 1
                if softs > 25:
                    continue
            ok = False
            for env in v["points"][:8]:
                q = replay(nm, env)
                if q.get("error"):
                    bad.append("replay: " + q["error"])
                    continue
                if q.get("fails"):
                    found(nm, env, q, v["label"])
                    ok = hit = True
                    break
            if v.get("soft"):
                soft_tried += 1
                soft_bad += ok
            elif not ok:
                bad.append("candidate for %r (%s) did not reproduce" % (v["label"], v.get("solver")))
            if verbose and not v.get("soft"):
                print("   candidate:", v["label"], v.get("solver"), "reproduced" if ok else "NOT reproduced",
                      v["points"][:1], v.get("tb", ""), flush=True)
            if hit and not verbose:
                break
        if not hit and not r.get("errors") and not r.get("reached"):
            bad.append("vacuous: no path reached a check")
        # the encoding against the code
        if not hit:
            tol = byname[nm].get("valtol", 2e-6)
            nok = nbad = 0
            why = ""
            for v in r.get("val") or []:
                q = replay(nm, v["env"])
                if q.get("error"):
                    bad.append("replay: " + q["error"])
                    continue
                if q.get("abort"):
                    continue
                if q.get("fails"):
                    found(nm, v["env"], q, "validation point")
                    hit = True
                    break
                d = v["exc"] if "exc" in v else compare(v["vals"], q["vals"], tol)
                if d is None:
                    nok += 1
                else:
                    nbad += 1
                    why = d
            validated += nok
            if nbad:
                bad.append("encoding disagrees with the code: " + why)
            elif r.get("reached") and not nok and not hit and not byname[nm].get("novalidate"):
                bad.append("no point validated the encoding")
        if bad and not hit:
            needs_fallback[nm] = bad
            if verbose:
                print("   PROBLEM", nm, bad, flush=True)
    # ---------------------------------------------------------------- fallback
    answered = True
    if needs_fallback and not confirmed:
        todo = [byname[n] for n in needs_fallback]
        # slices: all inputs but one or two pinned to sampled values
        slices = []
        for k in todo:
            r = res[k["name"]]
            names = sorted(r.get("decl") or {})
            pool = [p for p in (r.get("pool") or []) if all(n in p for n in names)]
            rng = random.Random(SEED + 7)
            for j in range(min(6, len(pool))):
                if not names:
                    break
                free = set(rng.sample(names, min(len(names), 1)))
                p = pool[j]
                kk = dict(k, name="%s#%d" % (k["name"], j), base=k["name"], budget=15,
                          fix={n: p[n] for n in names if n not in free})
                slices.append(kk)
        sres = {}
        if L is not None and slices and time.time() - t0 < total * 0.8:
            sres = run_cases(L, slices, 1.0, tier, fixed_of=lambda k: k["fix"], nval=0, hard_extra=20, until=t0 + 0.85 * total)
        for ik, k in enumerate(todo):
            nm = k["name"]
            mine = [sres[s["name"]] for s in slices if s["base"] == nm and s["name"] in sres]
            dec = 0
            hit = False
            for r in mine:
                for v in r.get("violations") or []:
                    for env in v["points"][:4]:
                        q = replay(nm, env)
                        if q.get("fails"):
                            found(nm, env, q, v["label"])
                            hit = True
                            break
                    if hit:
                        break
                if not r.get("errors") and not r.get("undecided") and r.get("reached") and not [
                        v for v in r.get("violations") or [] if not v.get("soft")]:
                    dec += 1
                if hit:
                    break
            pts = 0
            if not hit:
                # every undecided case gets its share of what is left
                t1 = time.time()
                stop = t1 + max(t0 + total * 1.15 - t1, 4.0 * (len(todo) - ik)) / (len(todo) - ik)
                pool = (res[nm].get("pool") or [])
                rng = random.Random(SEED + 13)
                for env in pool[:48] + [None] * 24:
                    if time.time() > stop or (env is None and pts >= 24):
                        break
                    env, q = complete(k, srv, prop, tier, env or {}, rng)
                    replays += 1
                    if q.get("fails"):
                        found(nm, env, q, "sampled point")
                        hit = True
                        break
                    if q.get("error") is None and not q.get("abort"):
                        pts += 1
            if not hit:
                reduced.append(dict(case=nm, why=needs_fallback[nm][:3], slices_decided=dec, points_replayed=pts))
                if dec == 0 and pts == 0:
                    answered = False
                    problems.append("%s: %s" % (nm, needs_fallback[nm][0]))
    srv.stop()
    # ---------------------------------------------------------------- report
    agg = {}
    for r in res.values():
        for k, v in (r.get("stats") or {}).items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in res.values() for f in r.get("functions") or []})
    obl = sum(r.get("obligations") or 0 for r in res.values())
    cand = sum(1 for r in res.values() for v in r.get("violations") or [] if not v.get("soft"))
    samples = []
    for nm, r in res.items():
        samples.append(dict(case=nm, bounds=byname[nm].get("bounds", ""), paths=r.get("paths"), obligations=r.get("obligations"),
                            checks=sorted(r.get("labels") or {})[:12], decided=nm not in needs_fallback,
                            example_input=(r.get("val") or [{}])[0].get("env") if r.get("val") else None))
    ev = dict(
        property=prop, tier=tier, seed=SEED, level="other",
        coverage=dict(
            explanation="symbolic execution of the functions below from /repo's current source over symbolic reals; "
                        "each obligation is negated together with its path condition and given to z3; unsat = holds for "
                        "every value in the bounds of the case; counterexamples are replayed on the unpatched package",
            cases=len(cases), cases_fully_decided=len(cases) - len(needs_fallback),
            paths=sum(r.get("paths") or 0 for r in res.values()),
            paths_outside_assumptions=sum(r.get("cut") or 0 for r in res.values()),
            obligations=obl, obligations_with_candidates=cand,
            solver_queries=agg.get("queries", 0), unsat=agg.get("unsat", 0), sat=agg.get("sat", 0),
            unknown=agg.get("unknown", 0), solver_time_s=round(agg.get("time", 0), 2),
            feasibility_queries=agg.get("feas", 0),
            concrete_replays=replays, encoding_points_validated=validated,
            undefined_operation_candidates=soft_tried, undefined_operation_confirmed=soft_bad,
            functions_encoded=funcs, samples=samples, reduced=reduced,
            excluded_points=sorted({x for r in res.values() for x in r.get("excluded") or []})[:60],
        ),
        assumptions=list(getattr(mod, "ASSUMES", [])) + COMMON,
        wall_s=round(time.time() - t0, 2), violations=len(confirmed),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    kf = load_known()
    rc = 0
    for v in known:
        ent = kf.get(v["known"])
        if ent is None or ent.get("property") != prop:
            confirmed.append(v)
    shown = set()
    for v in known:
        ent = kf.get(v["known"])
        if ent and v["known"] not in shown:
            shown.add(v["known"])
            print("KNOWN-FINDING: property=%s %s" % (prop, ent["what"]))
    for r in reduced:
        print("REDUCED: property=%s case=%s slices=%d points=%d (%s)" % (
            prop, r["case"], r["slices_decided"], r["points_replayed"], "; ".join(r["why"])[:700]))
    if confirmed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = set()
        for v in confirmed:
            key = v["case"]
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(HERE, "replays", "%s_%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in v["case"])))
            with open(path, "w") as f:
                json.dump(dict(prop=prop, case=v["case"], tier=tier, env=v["env"], fails=v["fails"], exc=v["exc"],
                               how=v["how"], run="run.py --replay " + path), f, indent=1)
            print("  case %s: %s" % (v["case"], "; ".join("%s: %s" % tuple(x) for x in v["fails"][:3])))
            print("  input %s" % json.dumps(v["env"])[:800])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif not answered:
        for p in problems:
            print("UNDECIDED property=%s %s" % (prop, p))
        rc = 2
    print("%s %s: %d cases, %d obligations, %d queries (%d unsat), %.1fs, exit %d" % (
        prop, tier, len(cases), obl, agg.get("queries", 0), agg.get("unsat", 0), time.time() - t0, rc))
    return rc


def complete(k, srv, prop, tier, env, rng):
    """run a case concretely; inputs that the symbolic run did not get to are
    drawn from their ranges"""
    env = dict(env)
    for _ in range(200):
        q = srv.ask(dict(prop=prop, case=k["name"], tier=tier, env=env))
        ab = q.get("abort") or ""
        if not ab.startswith("no value for "):
            break
        nm = ab[13:]
        if nm.startswith("?"):
            env[nm[1:]] = bool(rng.getrandbits(1))
        else:
            n, lo, hi = nm.split("|")
            lo = float(lo) if lo != "None" else -10.0
            hi = float(hi) if hi != "None" else lo + 20.0
            env[n] = rng.uniform(lo, hi)
    return env, q


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["id"]: e for e in json.load(f).get("findings", [])}


COMMON = [
    "double arithmetic is modelled as exact real arithmetic; rounding is outside the claim",
    "inputs at which a division, square root or logarithm of the code is undefined are excluded from the equalities "
    "and replayed on the real code instead (excluded_points)",
    "numpy, pandas, scipy and refnx.analysis behave as their facades in symx/ do; checked on sampled points of each case "
    "against the unpatched code (encoding_points_validated)",
    "function symbols (exp, sin, atan, complex sqrt ...) are known to the solver through true axioms only",
]

if __name__ == "__main__":
    sys.exit(main())
