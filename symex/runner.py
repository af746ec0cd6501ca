"""Runs the jobs of one property: symbolic exploration in worker processes, replay of counterexamples and validation of
sampled paths on the un-instrumented code, verdict, evidence."""
import json
import multiprocessing
import multiprocessing.sharedctypes
import os
import queue as _queue
import sys
import time
import traceback

from . import core
from .core import Explorer, Limits
from .ctx import SymCtx, ConcCtx, CheckFailed, AssumeFailed, KnownHit, deep_eq
from .world import harness_module, VERIF, REPO

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SLICE = float(os.environ.get("VERIF_SLICE", "20"))
MAX_PAUSED = 40


class Job(object):
    """one harness with fixed parameters"""

    def __init__(self, harness, params=None, seconds=150, paths=100000, merge=True, covers=(), name=None,
                 concretize=5000, max_repeat=64, kind="symex", bounds=None, attr_hooks=False):
        self.attr_hooks = attr_hooks
        self.harness = harness       # "module.function"
        self.params = params or {}
        self.seconds = seconds
        self.paths = paths
        self.merge = merge
        self.covers = list(covers)   # labels at least one path must reach
        self.name = name or harness + ("" if not params else " " + ",".join(
            "%s=%s" % (k, v) for k, v in sorted(self.params.items())))
        self.concretize = concretize
        self.max_repeat = max_repeat
        self.kind = kind


def known_findings():
    """{property: {kf id: text}} of the committed list"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line[8:].split(" ", 3)[:3] if "=" in x)
                text = line.split(" ", 3)[3] if line.count(" ") >= 3 else ""
                out.setdefault(f["property"], {})[f["id"]] = text
    return out


def get_harness(name, mode):
    mod, fn = name.split(".")
    return getattr(harness_module(mod, mode), fn)


def run_conc(job_harness, params, inputs, known, fill=False, seconds=20):
    """('ok'|'failed'|'assume'|'known'|'error', detail, ctx)"""
    c = ConcCtx(inputs, known, fill=fill)
    t_alarm = core.ALARMS
    if t_alarm:
        core.alarm(seconds)
    try:
        f = get_harness(job_harness, "conc")
        c.start()
        f(c, **params)
        core.alarm(0)
        return "ok", None, c
    except CheckFailed as ex:
        return "failed", ex.msg, c
    except AssumeFailed as ex:
        return "assume", str(ex), c
    except KnownHit as ex:
        return "known", ex.kf, c
    except core.PathTimeout:
        return "failed", "no end after %d seconds" % seconds, c
    except (RecursionError, MemoryError) as ex:
        return "error", type(ex).__name__, c
    except Exception as ex:
        core.alarm(0)
        tb = traceback.format_exc()
        return "failed", "unexpected exception %s: %s\n%s" % (type(ex).__name__, ex, tb[-1500:]), c
    finally:
        core.alarm(0)


def run_job(job, pid, t_end, known, ctl=None):
    seconds = max(1.0, min(job.seconds, t_end - time.time()))
    if job.kind != "symex":
        return run_special(job, pid, seconds, known)
    h = get_harness(job.harness, "sym")

    def body(ex):
        ex.text_mode = False
        ex.symlist_enabled = False
        ctx = SymCtx(ex, known, job.attr_hooks)
        ctx.start()
        h(ctx, **job.params)
    lim = Limits(seconds=seconds, paths=job.paths, concretize=job.concretize)
    ex = Explorer(body, lim, merge=job.merge)
    ex.max_concrete_repeat = job.max_repeat
    ex.known_hits = {}

    def between(ex):
        """lets the other jobs have their turn when the parent asks for it"""
        if ctl.value == 1:
            t = time.time()
            ctl.value = 2
            while ctl.value == 2 and os.getppid() == parent:
                time.sleep(0.02)
            ex.t_end = min(t_end, ex.t_end + time.time() - t)
    parent = os.getppid()
    if ctl is not None:
        ex.between = between
    res = dict(name=job.name, harness=job.harness, params=job.params, error=None, violations=[], known=[],
               validated=0, mismatches=[], samples=[])
    t0 = time.time()

    def confirm(msg, inputs, observed=None, data=None):
        st, detail, c = run_conc(job.harness, job.params, inputs, known, fill=True)
        if st == "failed":
            res["violations"].append(dict(msg=msg or detail, inputs=dict(c.used), replay_status=st,
                                          replay_detail=detail, observed=[(k, repr(v)[:300]) for k, v in c.obs],
                                          data=data))
            ex.work = []
        return st, detail

    def on_violation(ex, v):
        # counterexamples are replayed on the real code
        st, detail = confirm(v["msg"], v["inputs"], v.get("observed"), v.get("data"))
        if st == "failed":
            return
        ex.violations.remove(v)
        if st == "known":
            return
        ex.spurious = getattr(ex, "spurious", 0) + 1
        ex.note_incomplete("a counterexample does not reproduce on the real code (%s %s): %s inputs=%s" % (
            st, detail, v["msg"], str(v["inputs"])[:400]))
        if ex.spurious >= 5:
            ex.note_incomplete("stopped after %d counterexamples that do not reproduce" % ex.spurious)
            ex.work = []

    def on_suspect(ex, what, inputs):
        if inputs is not None:
            st, detail = confirm(None, inputs)
            if st == "failed":
                ex.violations.append(res["violations"][-1])
                return
            what += " (real code on these inputs: %s)" % st
        ex.note_incomplete(what)
    ex.on_violation = on_violation
    ex.on_suspect = on_suspect
    try:
        ex.run()
    except Exception:
        res["error"] = traceback.format_exc()
    except core.EngineSignal as e:
        res["error"] = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    for kf, v in ex.known_hits.items():
        st, detail, _ = run_conc(job.harness, job.params, v["inputs"], known, fill=True)
        res["known"].append((kf, st, v))
    # sampled passing paths: the real code must show the observations the engine computed
    for inp, obs in ex.samples:
        if res["violations"]:
            break
        st, detail, c = run_conc(job.harness, job.params, inp, known)
        if st == "known":
            continue
        if st == "failed":
            res["violations"].append(dict(msg=detail, inputs=dict(c.used), replay_status=st, replay_detail=detail,
                                          observed=[(k, repr(v)[:300]) for k, v in c.obs], data=None))
            res["mismatches"].append("the real code fails where the encoding passes: %s (inputs %s)" % (
                detail, str(inp)[:300]))
            continue
        if st != "ok":
            res["mismatches"].append("replay of a passing path: %s %s (inputs %s)" % (st, detail, str(inp)[:300]))
            continue
        if len(obs) != len(c.obs) or any(a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(obs, c.obs)):
            diff = [(a, b) for a, b in zip(obs, c.obs) if a[0] != b[0] or not same(a[1], b[1])][:2]
            res["mismatches"].append("observation differs: %s (inputs %s)" % (str(diff)[:400], str(inp)[:300]))
            continue
        res["validated"] += 1
        if len(res["samples"]) < 1:
            res["samples"].append(dict(job=job.name, inputs=short(inp), observed=short(dict(obs))))
    res.update(stats=ex.stats, covered=ex.covered, functions=sorted(ex.functions), incomplete=ex.incomplete,
               wall=time.time() - t0)
    return res


def same(a, b):
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool) and isinstance(a, int) and isinstance(b, int):
        return int(a) == int(b)
    return a == b


def short(x):
    s = {}
    for k, v in list(x.items())[:24]:
        r = v if isinstance(v, (int, bool, str)) else repr(v)
        s[str(k)] = r if not isinstance(r, str) else r[:160]
    return s


def run_special(job, pid, seconds, known):
    """harnesses that build their own encoding; they return the result fields"""
    mod, fn = job.harness.split(".")
    f = getattr(harness_module(mod, "conc"), fn)
    t0 = time.time()
    base = dict(name=job.name, harness=job.harness, params=job.params, error=None, violations=[], known=[],
                validated=0, mismatches=[], samples=[], covered={}, functions=[], incomplete=[],
                stats=dict(paths=0, aborted=0, decisions=0, forks=0, queries=0, solver_s=0.0, obligations=0,
                           discharged=0, trivial=0, merges=0, merge_aborts=0, unsupported=0, unknown=0))
    try:
        r = f(seconds=seconds, known=known, **job.params)
        for k, v in r.items():
            if k == "stats":
                base["stats"].update(v)
            else:
                base[k] = v
    except Exception:
        base["error"] = traceback.format_exc()
    except core.EngineSignal as e:
        base["error"] = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    base["wall"] = time.time() - t0
    return base


def worker(job, pid, t_end, known, conn, ctl):
    sys.setrecursionlimit(20000)
    core.install_alarm()
    import resource
    lim = int(os.environ.get("VERIF_JOB_MEM_GB", "6")) << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        r = run_job(job, pid, t_end, known, ctl)
    except MemoryError:
        r = None
    except BaseException:
        r = dict(name=job.name, error=traceback.format_exc())
    conn.send(r)
    conn.close()


def run_jobs(jobs, pid, total_seconds, known, stop_on_violation=True, verbose=False):
    """runs the jobs on NPROC processes"""
    mp = multiprocessing.get_context("fork")
    t_end = time.time() + total_seconds
    pending = list(jobs)
    running = []        # [job, process, pipe, start, control, start of the slice, paused]
    results = []
    again = set()
    while pending or running:
        now = time.time()
        active = [r for r in running if r[4].value != 2]
        paused = [r for r in running if r[4].value == 2]
        while len(active) < NPROC and now < t_end and (pending or paused):
            if pending:
                j = pending.pop(0)
                a, b = mp.Pipe(False)
                ctl = multiprocessing.sharedctypes.RawValue("i", 0)
                p = mp.Process(target=worker, args=(j, pid, t_end, known, b, ctl))
                p.start()
                b.close()
                r = [j, p, a, now, ctl, now]
                running.append(r)
            else:
                r = paused.pop(0)
                running.remove(r)       # to the end of the queue
                running.append(r)
                r[5] = now
                r[4].value = 0
            active.append(r)
        if pending or paused:
            # long jobs give way to the others: every job gets its turn before the budget is used up
            for r in active:
                if r[4].value == 0 and now - r[5] > SLICE and (paused or len(running) < MAX_PAUSED):
                    r[4].value = 1
        if now >= t_end:
            for r in paused:
                r[4].value = 0
            for j in pending:
                results.append(dict(name=j.name, skipped=True, incomplete=["not started: time budget used up"],
                                    job=j))
            pending = []
        done = []
        for r in running:
            j, p, a, t0 = r[:4]
            if a.poll(0.01):
                try:
                    x = a.recv()
                except EOFError:
                    x = None
                p.join()
                done.append(r)
                if x is None:
                    if id(j) not in again and time.time() < t_end:
                        again.add(id(j))    # once more: a crash of the solver's library, or memory that others used
                        pending.insert(0, j)
                        continue
                    x = dict(name=j.name, skipped=True, incomplete=["out of memory or killed"])
                x["job"] = j
                results.append(x)
                if verbose:
                    s = x.get("stats", {})
                    print("  [%6.1fs] %s: paths=%s queries=%s obligations=%s%s%s" % (
                        time.time() - t0, j.name, s.get("paths"), s.get("queries"), s.get("obligations"),
                        " INCOMPLETE" if x.get("incomplete") else "", " ERROR" if x.get("error") else ""))
                    sys.stdout.flush()
            elif not p.is_alive() and not a.poll(0):
                done.append(r)
                results.append(dict(name=j.name, skipped=True, incomplete=["worker died"], job=j))
            elif time.time() > t_end + 60:
                p.kill()
                done.append(r)
                results.append(dict(name=j.name, skipped=True, incomplete=["killed after the time budget"], job=j))
        for r in done:
            running.remove(r)
        if stop_on_violation and any(confirmed(x) for x in results) and (pending or running):
            for j, p, a, t0, ctl, sl in running:
                p.kill()
                results.append(dict(name=j.name, skipped=True, incomplete=["stopped: violation found elsewhere"],
                                    job=j))
            running = []
            pending = []
    return results


def confirmed(x):
    return [v for v in x.get("violations", []) if v.get("replay_status") == "failed"]


def check_property(pid, tier, verbose=False, only=None):
    from harness import registry
    prop = registry.PROPS[pid]
    t0 = time.time()
    known = known_findings().get(pid, {})
    jobs = prop["jobs"](tier)
    if only:
        jobs = [j for j in jobs if only in j.name]
    total = prop.get("budget", {}).get(tier, 480 if tier == "quick" else 800)
    # parse and instrument once, before forking
    import_errors = None
    try:
        for j in jobs:
            get_harness(j.harness, "sym")
            get_harness(j.harness, "conc")
    except Exception:
        import_errors = traceback.format_exc()
    if import_errors:
        print("ERROR loading harness:\n" + import_errors)
        return 2
    results = run_jobs(jobs, pid, total, known, verbose=verbose)
    rc = 0
    lines = []
    vio = 0
    stats = {}
    incomplete = []
    functions = set()
    validated = 0
    samples = []
    jobinfo = []
    known_seen = {}
    errors = []
    uncovered = []
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for x in results:
        j = x["job"]
        for k, v in x.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for m in x.get("incomplete", []):
            incomplete.append("%s: %s" % (x["name"], m))
        functions.update(x.get("functions", []))
        validated += x.get("validated", 0)
        samples.extend(x.get("samples", []))
        if x.get("error"):
            errors.append("%s: %s" % (x["name"], x["error"]))
        for m in x.get("mismatches", []):
            errors.append("%s: MODEL MISMATCH %s" % (x["name"], m))
        for c in j.covers:
            if not x.get("skipped") and not x.get("violations") and not x.get("covered", {}).get(c) and not x.get(
                    "incomplete"):
                uncovered.append("%s: nothing reached '%s'" % (x["name"], c))
        for kf, st, v in x.get("known", []):
            known_seen.setdefault(kf, []).append(st)
        for v in x.get("violations", []):
            if v["replay_status"] == "failed":
                vio += 1
                path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, vio))
                with open(path, "w") as f:
                    json.dump(dict(property=pid, harness=x["harness"], params=x["params"], message=v["msg"],
                                   inputs={k: w for k, w in v["inputs"].items()}, observed=v.get("observed"),
                                   data=v.get("data")), f, indent=1, default=repr)
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                lines.append("  %s: %s" % (x["name"], v["msg"]))
                lines.append("  inputs: %s" % json.dumps(short(v["inputs"]), default=repr)[:700])
        s = x.get("stats", {})
        jobinfo.append(dict(job=x["name"][:110], paths=s.get("paths", 0), obligations=s.get("obligations", 0),
                            discharged=s.get("discharged", 0), queries=s.get("queries", 0),
                            solver_s=round(s.get("solver_s", 0), 2),
                            complete=not x.get("incomplete") and not x.get("error")))
    for kf, sts in sorted(known_seen.items()):
        if "known" in sts or "failed" in sts:
            lines.append("KNOWN-FINDING: property=%s id=%s %s" % (pid, kf, known.get(kf, "")))
        else:
            errors.append("known finding %s does not reproduce on the real code (%s)" % (kf, sts))
    for m in uncovered:
        errors.append("vacuous: " + m)
    for m in incomplete[:20]:
        lines.append("INCOMPLETE %s" % m[:300])
    for l in lines:
        print(l)
    complete = not incomplete and not errors
    print("%s %s: %d jobs, %d paths, %d branch decisions, %d queries (%.1f s in the solver), %d/%d obligations "
          "discharged, %d sampled paths validated on the real code, %d functions encoded, %.1f s%s" % (
              pid, tier, len(results), stats.get("paths", 0), stats.get("decisions", 0), stats.get("queries", 0),
              stats.get("solver_s", 0), stats.get("discharged", 0), stats.get("obligations", 0), validated,
              len(functions), time.time() - t0, "" if complete else " (not complete)"))
    for e in errors[:10]:
        print("CHECK-ERROR " + e[:1500])
    if vio:
        rc = 1
    elif errors and os.environ.get("VERIF_STRICT"):
        # development: an engine error, an unreached label or a model that disagrees with the code fails the run
        rc = 2
    elif incomplete and os.environ.get("VERIF_STRICT") == "2":
        rc = 2
    write_evidence(pid, tier, prop, jobs, stats, validated, samples, jobinfo, functions, incomplete, errors, vio,
                   time.time() - t0, complete)
    return rc


def write_evidence(pid, tier, prop, jobs, stats, validated, samples, jobinfo, functions, incomplete, errors, vio, wall,
                   complete):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cov = dict(
        states=stats.get("paths", 0), transitions=stats.get("decisions", 0), traces_validated_against_impl=validated,
        samples=samples[:8] or [dict(note="no sample on this run")],
        obligations=stats.get("obligations", 0), discharged=stats.get("discharged", 0),
        trivially_discharged=stats.get("trivial", 0), queries=stats.get("queries", 0),
        solver_seconds=round(stats.get("solver_s", 0.0), 2), merges=stats.get("merges", 0),
        functions_encoded=sorted(functions)[:150], bounds=prop["bounds"](tier) if callable(prop["bounds"]) else
        prop["bounds"], outside_bounds=prop.get("outside", ""), jobs=jobinfo[:120], incomplete=incomplete[:40],
        errors=[e[:300] for e in errors[:5]], exhaustive=bool(complete),
        explanation="states = symbolic paths explored, transitions = branch decisions settled by z3; an obligation is "
                    "an assertion on one path, discharged when z3 shows it for all values on that path.")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=prop.get("assumptions", []) + registry_assumptions(), wall_s=round(wall, 2), violations=vio)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(ev, default=repr)
    while len(s) > 60000 and cov["jobs"]:
        cov["jobs"] = cov["jobs"][:len(cov["jobs"]) // 2]
        cov["samples"] = cov["samples"][:3]
        s = json.dumps(ev, default=repr)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        f.write(json.dumps(ev, indent=1, default=repr))


def registry_assumptions():
    from harness import registry
    return registry.COMMON_ASSUMPTIONS


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    if a.replay:
        r = json.load(open(a.replay))
        core.install_alarm()
        st, detail, c = run_conc(r["harness"], r["params"], r["inputs"], {}, fill=True)
        print("replay on %s: %s %s" % (REPO, st, detail or ""))
        for n, v in c.obs:
            print("  observed %s = %r" % (n, v))
        return 1 if st == "failed" else 0
    return check_property(a.property, a.tier, a.v, a.only)
