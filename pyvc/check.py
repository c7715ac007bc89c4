"""pyvc.check - runs one property: obligations, counterexample replay,
CPython cross-check, evidence."""
import ast
import gc
import importlib
import json
import logging
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import core, load
from .core import Stuck, watched

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {}
for f in sorted(os.listdir(os.path.join(HERE, "specs"))):
    if f.startswith("c") and f.endswith(".py"):
        SPECS[f[:3].upper()] = f[:-3]

def level_of(pid):
    """the level MANIFEST.json claims"""
    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")) as f:
            return {c["property"]: c["level"] for c in json.load(f)["checks"]}[pid]
    except (OSError, KeyError):
        return "proof"


TRUSTED = [
    "CPython 3.12 executing the extracted functions",
    "pyvc (path explorer, loop cutter, symbolic numbers): /verif/pyvc",
    "z3 %s" % core.z3.get_version_string(),
    "python numbers are modelled as mathematical integers and reals "
    "(no float rounding)",
]


def jsonable(x):
    if isinstance(x, Fraction):
        return {"num": x.numerator, "den": x.denominator}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def unjson(x):
    if isinstance(x, dict) and set(x) == {"num", "den"}:
        return Fraction(x["num"], x["den"])
    if isinstance(x, dict):
        return {k: unjson(v) for k, v in x.items()}
    return x


def monitor_functions():
    """record which functions of /repo are executed symbolically"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "pyvc")
    except ValueError:
        return
    prefix = load.REPO.rstrip("/") + "/"

    def start(code, offset):
        fn = code.co_filename
        if fn.startswith(prefix) and core.CURRENT is not None \
                and core.CURRENT.sym:
            q = code.co_qualname
            if not q.endswith(">") or "<locals>" in q:
                core.FUNCTIONS_SEEN.add((fn[len(prefix):], q))
        if core.CURRENT is not None or not fn.startswith(prefix):
            return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def stop_monitor():
    try:
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)
    except ValueError:
        pass


# messages of the interpreter which name the type of an operand
TYPE_NAMES = re.compile(
    r"'([A-Za-z_][\w.]*)'|\bobject ([A-Za-z_]\w*) can't|[,:] ([A-Za-z_]\w*) found"
    r"|\bnot ([A-Za-z_]\w*)$|\bgot ([A-Za-z_]\w*)$"
    r"|([A-Za-z_][\w.<>]*)\(\) (?:takes|missing|got|argument)")


def stub_types(modname):
    """names of the classes which stand for objects in the harnesses"""
    names = set()
    here = os.path.dirname(os.path.abspath(__file__))
    specs = os.path.join(os.path.dirname(here), "specs")
    files = [os.path.join(here, f) for f in os.listdir(here)]
    files += [os.path.join(specs, f) for f in os.listdir(specs)
              if f == modname + ".py" or "_common" in f]
    for f in files:
        if f.endswith(".py"):
            with open(f) as fp:
                for n in ast.walk(ast.parse(fp.read())):
                    if isinstance(n, ast.ClassDef):
                        names.add(n.name)
    return names


def monitor_stubs(names):
    """An operation a stub does not have is no behaviour of the code: nothing
    that fails after it on a path is reported, the path is undecided."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "pyvc-stubs")
    except ValueError:
        return

    places = (load.REPO.rstrip("/") + "/", HERE.rstrip("/") + "/")

    def raised(code, offset, e):
        ctx = core.CURRENT
        if ctx is None or not isinstance(e, (TypeError, AttributeError)) \
                or ctx.foreign is not None \
                or not code.co_filename.startswith(places):
            return
        for groups in TYPE_NAMES.findall(str(e)):
            for g in groups:
                if g and any(part in names for part in g.split(".")):
                    ctx.foreign = "%s: %s" % (type(e).__name__, e)
                    if os.environ.get("PYVC_FOREIGN"):
                        print("foreign:", ctx.foreign, code.co_qualname)
                    return
    mon.register_callback(3, mon.events.RAISE, raised)
    mon.set_events(3, mon.events.RAISE)


class Cvc5:
    """second back end: re-decide discharged queries (thorough tier)"""

    def __init__(self, report, limit=4000):
        self.limit = limit
        self.report = report

    def __call__(self, solver, result, name):
        so = core.CURRENT.x.report.second_opinion
        if sum(so.values()) >= self.limit or result != core.z3.unsat:
            return
        r = core.cvc5_check("(set-logic ALL)\n" + solver.to_smt2(), 5000)
        so[r] = so.get(r, 0) + 1


class Violation:
    def __init__(self, kind, name, detail, replay, concrete):
        self.kind, self.name, self.detail = kind, name, detail
        self.replay, self.concrete = replay, concrete


def replay_concrete(harness, values, choices):
    stat = {}
    ctx, status = core.run_concrete(harness, stat, values=values,
                                    choices=choices)
    return ctx, status


def fuzz_one(fn, seed, again=True):
    """-> None, or a dict describing the failure"""
    rng = random.Random(seed)
    try:
        r = watched(fn, rng)
    except Stuck:
        return {"oracle": "hang: the code goes round and round",
                "trace": traceback.format_exc()[-1500:]}
    except MemoryError:
        gc.collect()
        if again:
            return fuzz_one(fn, seed, False)
        return {"oracle": "hang: the code goes on until no memory is left",
                "trace": ""}
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return {"oracle": str(e) or "assertion %s:%s" % (
            os.path.basename(tb.filename), tb.lineno),
            "trace": traceback.format_exc()[-1500:]}
    except BaseException as e:
        from .simloop import Hang
        if isinstance(e, Hang):
            return {"oracle": "hang: " + str(e), "trace": traceback.format_exc()[-1500:]}
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        return {"crash": "%s: %s" % (type(e).__name__, e),
                "oracle": "unexpected %s: %s" % (type(e).__name__, e),
                "trace": traceback.format_exc()[-2500:]}
    return None


def _fuzz_worker(args):
    modname, fname, base, budget, maxn, single = args
    mod = importlib.import_module("specs." + modname)
    fn = dict(mod.FUZZ)[fname]
    t0 = time.time()
    n = 0
    k = base
    while n < maxn and time.time() - t0 < budget:
        r = fuzz_one(fn, k)
        n += 1
        if r is not None and fname in getattr(mod, "REAL", ()):
            # real time and processes: it has to fail again
            tries = 1 if "hang" in r["oracle"] else 2
            r = next(filter(None, (fuzz_one(fn, k) for _ in range(tries))), None)
        if r is not None:
            r["seed"] = k
            return n, r
        k += 8
    return n, None


def run_fuzz(modname, fuzz, seed, budget, maxn):
    """concrete executions of the real code, 8 processes"""
    out = []
    from concurrent.futures import ThreadPoolExecutor  # noqa: not used
    import pickle
    procs = []
    names = [n for n, _ in fuzz]
    if not names:
        return {}, []
    share = max(budget / len(names), 0.3)
    for w in range(8):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                gc.collect()
                res = []
                for n in names:
                    c, f = _fuzz_worker(
                        (modname, n, seed * 1000003 + w, share, maxn, False))
                    res.append((n, c, f))
                    f2 = os.fdopen(os.dup(wr), "wb")
                    f2.write(pickle.dumps((n, c, f)))
                    f2.close()
                    if f is not None:
                        break
            except BaseException:
                try:
                    f2 = os.fdopen(os.dup(wr), "wb")
                    f2.write(pickle.dumps(
                        ("?", 0, {"infra": traceback.format_exc()[-800:]})))
                    f2.close()
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    import io
    import select
    counts = {n: 0 for n in names}
    fails = []
    infra = []
    hardlimit = time.time() + budget * 3 + 60
    bufs = {r: b"" for _, r in procs}
    open_fds = set(bufs)
    while open_fds:
        left = hardlimit - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select(list(open_fds), [], [], left)
        for r in rd:
            d = os.read(r, 65536)
            if not d:
                open_fds.discard(r)
                os.close(r)
            else:
                bufs[r] += d
    for pid, r in procs:
        if r in open_fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(r)
            infra.append("fuzz process did not end in time")
        os.waitpid(pid, 0)
    for b in bufs.values():
        f = io.BytesIO(b)
        while True:
            try:
                n, c, x = pickle.load(f)
            except EOFError:
                break
            except Exception:
                break
            if n == "?":
                infra.append(x["infra"])
                continue
            counts[n] += c
            if x is not None:
                fails.append((n, x))
    return counts, fails, infra


def unrolled(harness, timeout_ms, budget):
    """bounded, exact exploration: loops are not cut, only unrolled"""
    def h(ctx):
        ctx.no_cut = True
        harness(ctx)
    x = core.Explorer("unrolled", timeout_ms=timeout_ms, max_paths=6000,
                      budget_s=budget, jobs=8)
    return x.run(h)


MEMORY = 2000 << 20


def main(argv):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError):
        pass
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    if argv and argv[0] == "--replay":
        return replay_file(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    rdir = os.path.join(ev, "replays")
    os.makedirs(rdir, exist_ok=True)
    rc, doc = run(pid, tier, seed, rdir)
    doc["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(jsonable(doc), f, indent=1)
    return rc


def run(pid, tier, seed, rdir):
    modname = SPECS[pid]
    thorough = tier == "thorough"
    violations = []
    undecided = []
    reports = []
    import_error = None
    try:
        spec = importlib.import_module("specs." + modname)
    except BaseException:
        # the module under test cannot even be imported
        import_error = traceback.format_exc()
        print("undecided: %s" % import_error.splitlines()[-1])
        return 0, {
            "property": pid, "tier": tier, "seed": seed, "level": level_of(pid),
            "coverage": {"explanation": "the module cannot be imported", "obligations": 0, "discharged": 0,
                         "checker_cmd": "python3-vt run.py " + pid,
                         "trusted_base": TRUSTED,
                         "undecided": [import_error[-800:]]},
            "violations": 0,
        }
    harnesses = dict(spec.HARNESSES)
    timeout_ms = 20000 if thorough else 5000
    monitor_stubs(stub_types(modname))
    monitor_functions()
    for name, h in spec.HARNESSES:
        x = core.Explorer(
            name, timeout_ms=timeout_ms, jobs=8,
            budget_s=getattr(spec, "BUDGET", 60) * (4 if thorough else 1),
            max_paths=getattr(spec, "MAX_PATHS", 60000),
        )
        if thorough:
            x.on_query = Cvc5(x.report, 500)
        reports.append(x.run(h))
    stop_monitor()
    functions = set(core.FUNCTIONS_SEEN)
    for r in reports:
        functions |= r.functions
    # ---- concrete side: the same contracts on concrete values, and the
    # real modules under a real event loop
    fuzz_budget = getattr(spec, "FUZZ_S", 6.0) * (10 if thorough else 1)
    conc = {"harness_runs": 0, "harness_checks": 0, "discarded": 0,
            "undecided_runs": 0}
    conc_fail = []
    rng = random.Random(seed)
    hb = (20.0 if thorough else 2.0) / max(1, len(harnesses))
    skip = set(getattr(spec, "NO_CONCRETE", ()))
    for name, h in spec.HARNESSES:
        if name in skip:
            continue
        end = time.time() + hb
        n = 0
        while time.time() < end and n < (20000 if thorough else 1500):
            n += 1
            stat = {}
            try:
                ctx, status = watched(
                    core.run_concrete,
                    h, stat, rng=random.Random(rng.random()))
            except Stuck:
                undecided.append("%s: a concrete run does not end" % name)
                break
            conc["harness_checks"] += stat.get("checks", 0)
            if status == "discard":
                conc["discarded"] += 1
            elif status in ("unsupported", "error"):
                conc["undecided_runs"] += 1
                if len(undecided) < 10 and status == "error":
                    undecided.append("%s: concrete run: %s" % (
                        name, ctx.log[-1] if ctx.log else "?"))
            elif status == "fail":
                conc_fail.append((name, ctx))
                break
            else:
                conc["harness_runs"] += 1
    gc.collect()
    counts, fails, infra = {}, [], []
    if spec.FUZZ:
        counts, fails, infra = run_fuzz(
            modname, spec.FUZZ, seed, fuzz_budget,
            getattr(spec, "FUZZ_MAX", 100000))
    undecided += infra

    def save(tag, data):
        p = os.path.join(rdir, "%s-%s.json" % (pid, tag))
        data["property"] = pid
        data["how_to_replay"] = "python3-vt /verif/run.py --replay " + p
        with open(p, "w") as f:
            json.dump(jsonable(data), f, indent=1)
        return p

    known = load_known(pid)
    fixed_names = {k["fingerprint"] for k in known}
    seen_known = set()

    # 1. real executions which break the contract
    done = set()
    for name, f in fails:
        fp = "%s: %s" % (name, f["oracle"])
        if fp in done:
            continue
        done.add(fp)
        if fp in fixed_names:
            seen_known.add(fp)
            continue
        p = save("run-%s" % name, {
            "kind": "execution of the real code", "fuzz": name,
            "seed": f["seed"], "failed": fp, "trace": f.get("trace"),
        })
        violations.append(Violation("run", fp, f, p, True))
    for name, ctx in conc_fail:
        fp = "%s: %s" % (name, ctx.failures[0][0])
        if fp in fixed_names:
            seen_known.add(fp)
            continue
        p = save("contract-%s" % name.replace("/", "_"), {
            "kind": "contract evaluated on a concrete execution",
            "harness": name, "failed": fp, "detail": ctx.failures[0][1],
            "values": ctx.drawn, "choices": ctx.choices, "log": ctx.log[-80:],
        })
        violations.append(Violation("contract", fp, ctx.failures, p, True))

    # 2. refuted obligations
    nob = nproved = 0
    vcs = smt = vcs_ok = 0
    bounds = getattr(spec, "BOUNDED", {})
    bounded = {}
    vac = []
    for r in reports:
        h = harnesses[r.name]
        for u in r.unsupported:
            undecided.append("%s: outside of the verified subset: %s" % (r.name, u))
        for e in r.errors[:3]:
            undecided.append("%s: %s" % (r.name, e))
        for c, k in r.covers.items():
            if not k:
                vac.append("%s: %s" % (r.name, c))
        abstract_todo = []
        if r.name in bounds:
            # exhaustive up to a bound: reported, never counted as discharged
            obs = list(r.obligations.values())
            bounded[r.name] = {
                "bound": bounds[r.name], "obligations": len(obs),
                "held_within_the_bound": sum(
                    o.status == "proved" for o in obs),
                "conditions": sum(o.total for o in obs),
            }
        for o in r.obligations.values():
            if r.name not in bounds:
                nob += 1
                vcs += o.total
                smt += o.smt
                vcs_ok += o.proved
            if o.status == "proved":
                nproved += r.name not in bounds
            elif o.status == "unknown":
                undecided.append("%s: %s: solver unknown" % (r.name, o.name))
            elif o.status == "refuted":
                fp = "%s: %s" % (r.name, o.name)
                if fp in fixed_names:
                    seen_known.add(fp)
                    continue
                exact = [c for c in o.refuted if c["exact"]]
                hit = None
                for c in exact[:20]:
                    if r.name in skip:
                        break
                    ctx, status = replay_concrete(h, c["values"], c["choices"])
                    if status == "fail":
                        hit = (c, ctx)
                        break
                if hit:
                    c, ctx = hit
                    p = save("ce-%d" % len(violations), {
                        "kind": "verifier counterexample replayed",
                        "harness": r.name, "failed": fp,
                        "confirmed": ctx.failures, "values": c["values"],
                        "choices": c["choices"], "log": c["log"],
                        "goal": c["goal"], "detail": c["detail"],
                    })
                    violations.append(Violation("ce", fp, c, p, True))
                elif exact:
                    c = exact[0]
                    p = save("ob-%d" % len(violations), {
                        "kind": "failed obligation, exact path",
                        "harness": r.name, "failed": fp,
                        "values": c["values"], "choices": c["choices"],
                        "log": c["log"], "goal": c["goal"],
                        "detail": c["detail"], "solver": "z3: sat",
                    })
                    violations.append(Violation("ob", fp, c, p, False))
                else:
                    abstract_todo.append((fp, o))
        if abstract_todo and not violations:
            ur = unrolled(h, timeout_ms, 40)
            for o in ur.obligations.values():
                for c in o.refuted[:10]:
                    if not c["exact"]:
                        continue
                    ctx, status = replay_concrete(h, c["values"], c["choices"])
                    fp = "%s: %s" % (r.name, o.name)
                    if fp in fixed_names:
                        seen_known.add(fp)
                        continue
                    if status == "fail":
                        p = save("ce-%d" % len(violations), {
                            "kind": "counterexample (loop unrolled) replayed",
                            "harness": r.name, "failed": fp,
                            "confirmed": ctx.failures, "values": c["values"],
                            "choices": c["choices"], "log": c["log"],
                        })
                        violations.append(Violation("ce", fp, c, p, True))
                        break
                    if status == "discard" and not any(v.name == fp for v in violations):
                        # no concrete form of this harness: the path itself
                        # (nothing on it is abstracted) is the evidence
                        p = save("ob-%d" % len(violations), {
                            "kind": "failed obligation, exact path (loop unrolled)",
                            "harness": r.name, "failed": fp, "values": c["values"],
                            "choices": c["choices"], "log": c["log"], "goal": c["goal"],
                            "detail": c["detail"], "solver": "z3: sat"})
                        violations.append(Violation("ob", fp, c, p, False))
        if abstract_todo and not any(v.concrete for v in violations):
            for fp, o in abstract_todo:
                c = o.refuted[0]
                if getattr(spec, "STRICT_LOOPS", False):
                    p = save("ob-%d" % len(violations), {
                        "kind": "failed obligation (loop contract)",
                        "failed": fp, "values": c["values"],
                        "log": c["log"], "goal": c["goal"],
                        "detail": c["detail"], "solver": "z3: sat"})
                    violations.append(Violation("ob", fp, c, p, False))
                else:
                    undecided.append(
                        "%s: not inductive with the given loop contract; "
                        "bounded unrolling and executions found no failure"
                        % fp)
    for v in vac:
        undecided.append("vacuous: %s is not reachable" % v)

    findings = getattr(spec, "FINDINGS", {})
    for k in known:
        if k.get("status") != "finding":
            continue
        present = None
        fn = findings.get(k["fingerprint"])
        if fn is not None:
            try:
                present = fn()
            except BaseException:
                present = None
        elif k["fingerprint"] in seen_known:
            present = True
        if present:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    nsec = {}
    for r in reports:
        for k, v in r.second_opinion.items():
            nsec[k] = nsec.get(k, 0) + v
    cov = {
        "obligations": nob, "discharged": nproved,
        "checker_cmd": "python3-vt run.py %s" % pid,
        "trusted_base": TRUSTED + list(getattr(spec, "TRUSTED", [])),
        "verification_conditions": {
            "generated": vcs, "discharged": vcs_ok,
            "by_z3": smt, "by_evaluation_on_the_path": vcs - smt,
        },
        "back_end": "z3 " + core.z3.get_version_string(),
        "second_back_end_cvc5": nsec,
        "string_queries_decided_by_cvc5": {
            k: sum(r.string_queries.get(k, 0) for r in reports)
            for k in sorted({k for r in reports for k in r.string_queries})},
        "solver_s": round(sum(r.solver_time for r in reports), 2),
        "solver_calls": sum(r.solver_calls for r in reports),
        "paths": sum(r.paths for r in reports),
        "harnesses": [
            {"name": r.name, "paths": r.paths,
             "bounded": bounds.get(r.name), "obligations": {
                o.name: "%s (%d/%d)" % (o.status, o.proved, o.total)
                for o in r.obligations.values()},
             "reachability_covers": r.covers,
             "loop_candidates_kept": r.candidates_kept,
             "truncated": r.truncated} for r in reports
        ],
        "bounded_stand_ins": bounded,
        "functions_under_contract": list(getattr(spec, "CONTRACTS", [])),
        "functions_executed_symbolically": sorted(
            "%s:%s" % f for f in functions),
        "undecided": undecided[:30],
        "concrete_contract_runs": conc,
        "bounded_executions": counts,
        "bounded_note": "executions of the real modules with randomly drawn "
                        "inputs and schedules (virtual time); bounded, not "
                        "counted as discharged",
    }
    if level_of(pid) == "other":
        cov["explanation"] = spec.EXPLANATION
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": level_of(pid),
        "coverage": cov,
        "assumptions": list(getattr(spec, "ASSUME", [])) + sorted(
            set().union(*[r.assumptions for r in reports]) if reports else []),
        "violations": len(violations),
    }
    for u in undecided[:12]:
        print("undecided:", u.strip().splitlines()[0][:300])
    print("%s: %d/%d obligations discharged, %d/%d conditions (%d by z3), "
          "%d/%d within bounds, "
          "%d paths, executions %s, contract runs %s" % (
              pid, nproved, nob, vcs_ok, vcs, smt,
              sum(b["held_within_the_bound"] for b in bounded.values()),
              sum(b["obligations"] for b in bounded.values()),
              cov["paths"], counts, conc))
    if not violations:
        return 0, doc
    violations.sort(key=lambda v: not v.concrete)
    v = violations[0]
    for w in violations:
        print("  failed: %s%s" % (w.name, "" if w.concrete else " (no input)"))
    doc["coverage"]["failed"] = [w.name for w in violations]
    print("VIOLATION property=%s replay=%s%s" % (
        pid, v.replay, "" if v.concrete else " no-failing-input-found"))
    return 1, doc


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["entries"]
            if k["property"] == pid and k.get("status") == "finding"]


def replay_file(path):
    d = json.load(open(path))
    spec = importlib.import_module("specs." + SPECS[d["property"]])
    if "seed" in d:
        r = fuzz_one(dict(spec.FUZZ)[d["fuzz"]], d["seed"])
        print(json.dumps(jsonable(r), indent=1) if r else "not reproduced")
        return 1 if r else 0
    h = dict(spec.HARNESSES)[d["harness"]]
    values = {k: unjson(v) for k, v in d["values"].items()}
    ctx, status = replay_concrete(h, values, d["choices"])
    print(status, ctx.failures)
    print("\n".join(ctx.log[-60:]))
    return 1 if status == "fail" else 0
