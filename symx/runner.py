"""Runs the jobs of one property over all cores and reports."""
import json
import logging
import multiprocessing as mp
import os
import queue as _queue
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from . import core, ir, instrument, proxies
from .concrete import run_concrete, same, norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

# optimisations switched off one after another when a job does not work out
LADDER = [(), ("pred", "exists"), ("grid", "pred", "exists"), ("grid", "pred", "exists", "merge"),
          ("grid", "pred", "exists", "merge", "symstr")]


class Job:
    def __init__(self, name, fn, bounds, params=None, tiers=("quick", "thorough"), mandatory=True,
                 validate=1, covers=(), budget=None, stubs=()):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.params = params or {}
        self.tiers, self.mandatory, self.validate = tiers, mandatory, validate
        self.covers = covers
        self.budget = budget
        self.stubs = stubs


def load_packages():
    logging.disable(logging.CRITICAL)
    instrument.load("hpsym", True)
    instrument.load("hpreal", False)


# ------------------------------------------------------------------ worker side
class Stale(BaseException):
    pass


def _explore_task(job, prefix, disable, deadline, sh, jid, epoch, put):
    ir.reset_universe()
    c = core.Ctx(disable=disable)
    c.deadline = deadline
    viol, mism, samples = [], [], []
    n = [0]
    raised = [0]

    def on_path(c, bad):
        n[0] += 1
        if bad:
            values = c.values(bad[0])
            st, cc = run_concrete(job.fn, values, job.params)
            if cc.failed:
                viol.append({"values": {k: norm(v) for k, v in values.items()}, "msgs": cc.failed,
                             "predicted": bad[1], "tb": getattr(cc, "traceback", None)})
                raise Stale()
            mism.append({"values": {k: norm(v) for k, v in values.items()}, "what":
                         f"counterexample to {bad[1]} not reproduced ({st})"})
            raise Stale()
        if job.validate and n[0] % job.validate == 0:
            values = c.values()
            st, cc = run_concrete(job.fn, values, job.params)
            if cc.failed:
                viol.append({"values": {k: norm(v) for k, v in values.items()}, "msgs": cc.failed,
                             "predicted": [], "tb": getattr(cc, "traceback", None)})
                raise Stale()
            if st == "aborted":
                # the float run leaves the assumptions of the exact one: nothing to compare
                return
            a = [proxies.evalue(o) for o in c.observed]
            if not same(a, cc.observed):
                mism.append({"values": {k: norm(v) for k, v in values.items()},
                             "what": f"observed {a!r} on the symbolic run, {cc.observed!r} on the real one"})
                raise Stale()
            c.stats.validated += 1
        if len(samples) < 2:
            samples.append({k: norm(v) for k, v in c.values().items()})

    def donate(c):
        if sh["epoch"][jid] != epoch:
            raise Stale()
        if sh["idle"].value > sh["queued"].value:
            pre = c.prefix_for_donation()
            if pre is not None:
                put((jid, epoch, pre, disable))

    complete, restart, err = False, None, None
    try:
        complete = c.explore(job.fn_sym, forced=prefix, on_path=on_path, donate=donate)
    except Stale:
        pass
    except core.Restart as e:
        restart = e.args[0] if e.args else "?"
    except core.EngineError as e:
        err = f"engine: {e}"
    except core.EngineSignal as e:
        err = f"engine: {type(e).__name__} {e}"
    except z3_exc() as e:
        err = f"solver: {e}"
    except RecursionError as e:
        err = "recursion"
    finally:
        c.unpatch()
        proxies.set_ctx(None)
    return {"complete": complete, "restart": restart, "err": err, "viol": viol, "mism": mism,
            "stats": c.stats.as_dict(), "functions": sorted(c.functions), "covered": sorted(c.covered),
            "inconclusive": c.inconclusive[:5], "samples": samples}


def z3_exc():
    import z3
    return z3.Z3Exception


def _worker(jobs, tasks, results, sh):
    sys.setrecursionlimit(20000)

    def put(t):
        with sh["out"].get_lock():
            sh["out"].value += 1
        with sh["queued"].get_lock():
            sh["queued"].value += 1
        tasks.put(t)

    while True:
        with sh["idle"].get_lock():
            sh["idle"].value += 1
        t = tasks.get()
        with sh["idle"].get_lock():
            sh["idle"].value -= 1
        if t is None:
            return
        with sh["queued"].get_lock():
            sh["queued"].value -= 1
        jid, epoch, prefix, disable = t
        if sh["epoch"][jid] != epoch:
            r = {"stale": True}
        else:
            job = jobs[jid]
            try:
                r = _explore_task(job, prefix, disable, sh["deadline"][jid], sh, jid, epoch, put)
            except BaseException as e:
                r = {"complete": False, "restart": None, "err": f"worker: {type(e).__name__}: {e}\n"
                     + traceback.format_exc()[-1500:], "viol": [], "mism": [], "stats": {}, "functions": [],
                     "covered": [], "inconclusive": [], "samples": []}
        r["jid"], r["epoch"], r["pid"] = jid, epoch, os.getpid()
        results.put(r)
        # counted only now: everything this task donated is already counted
        with sh["out"].get_lock():
            sh["out"].value -= 1


class JobState:
    def __init__(self, job):
        self.job = job
        self.reset()
        self.disable = set()
        self.rung = 0
        self.restarts = 0
        self.failed = None
        self.notes = []

    def reset(self):
        self.stats = {}
        self.functions, self.covered = set(), set()
        self.incomplete = False
        self.inconclusive = []
        self.samples = []
        self.viol, self.mism, self.err = [], [], []


class Pool:
    def __init__(self, jobs):
        self.jobs = jobs
        ctx = mp.get_context("fork")
        self.tasks, self.results = ctx.Queue(), ctx.Queue()
        self.sh = {"idle": ctx.Value("i", 0), "out": ctx.Value("i", 0),
                   "queued": ctx.Value("i", 0),
                   "epoch": ctx.Array("i", [0] * len(jobs), lock=False),
                   "deadline": ctx.Array("d", [0.0] * len(jobs), lock=False)}
        self.procs = [ctx.Process(target=_worker, args=(jobs, self.tasks, self.results, self.sh), daemon=True)
                      for _ in range(NPROC)]
        for p in self.procs:
            p.start()

    def submit(self, jid, st):
        with self.sh["out"].get_lock():
            self.sh["out"].value += 1
        with self.sh["queued"].get_lock():
            self.sh["queued"].value += 1
        self.tasks.put((jid, self.sh["epoch"][jid], None, tuple(sorted(st.disable, key=str))))

    def close(self):
        for p in self.procs:
            p.terminate()
        for p in self.procs:
            p.join(5)


def _next_rung(st):
    st.rung += 1
    if st.rung >= len(LADDER):
        return False
    st.disable |= set(LADDER[st.rung])
    return True


def run_phase(pool, states, jids, deadline):
    """explore the given jobs to completion or to the deadline"""
    for j in jids:
        pool.sh["deadline"][j] = deadline
    for j in jids:
        pool.submit(j, states[j])
    stop = None
    while True:
        if stop is not None and time.time() > stop:
            for j in jids:
                if not states[j].viol:
                    states[j].incomplete = True
                    states[j].notes.append("stopped after the violation in another job")
                pool.sh["epoch"][j] += 1
            return
        try:
            r = pool.results.get(timeout=0.2)
        except _queue.Empty:
            if pool.sh["out"].value == 0 and pool.results.empty():
                return
            if not all(p.is_alive() for p in pool.procs):
                for j in jids:
                    states[j].failed = "a worker process died"
                return
            if time.time() > deadline + 60:
                for j in jids:
                    states[j].incomplete = True
                return
            continue
        if r.get("stale"):
            continue
        j = r["jid"]
        if r["epoch"] != pool.sh["epoch"][j]:
            continue
        st = states[j]
        for k, v in r["stats"].items():
            st.stats[k] = st.stats.get(k, 0) + v
        st.functions |= set(r["functions"])
        st.covered |= set(r["covered"])
        st.inconclusive += r["inconclusive"]
        if len(st.samples) < 4:
            st.samples += r["samples"][: 4 - len(st.samples)]
        again = False
        if r["viol"]:
            st.viol += r["viol"]
            # stop this job, and soon the others
            pool.sh["epoch"][j] += 1
            if stop is None and not match_known(pool.prop, st.job.name, r["viol"][0]):
                stop = time.time() + 20
            continue
        if r["restart"] is not None:
            st.restarts += 1
            st.notes.append(f"restarted without {r['restart']}")
            if st.restarts > 30:
                again = _next_rung(st)
                st.restarts = 0
            else:
                st.disable.add(r["restart"])
                again = True
        elif r["mism"] or r["err"]:
            what = r["mism"][0] if r["mism"] else r["err"]
            st.notes.append(f"rung {st.rung}: {what}")
            again = _next_rung(st)
        elif not r["complete"]:
            st.incomplete = True
        if r["restart"] is not None or r["mism"] or r["err"]:
            pool.sh["epoch"][j] += 1
            if again and time.time() < deadline:
                notes = st.notes
                st.reset()
                st.notes = notes
                pool.submit(j, st)
            else:
                st.failed = st.notes[-1]


# ------------------------------------------------------------------ reporting
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as h:
            return json.load(h)
    except FileNotFoundError:
        return []


def match_known(prop, job, v):
    for f in known_findings():
        if f.get("status") == "fixed" or f.get("property") != prop or f.get("job") != job:
            continue
        if f.get("values") == v["values"] or (f.get("msg") and f["msg"] in v["msgs"]
                                              and all(v["values"].get(k) == x for k, x in f.get("where", {}).items())):
            return f
    return None


def replay_file(path):
    """run a recorded counterexample against the code in /repo; exit 1 when it fails"""
    with open(path) as h:
        d = json.load(h)
    import harness
    logging.disable(logging.CRITICAL)
    instrument.load("hpreal", False)
    job = next(j for j in harness.jobs(d["property"]) if j.name == d["job"])
    st, cc = run_concrete(job.fn, d["values"], job.params)
    print(f"property {d['property']} job {job.name}")
    print("inputs:", json.dumps(d["values"]))
    for m in cc.failed:
        print("FAILED:", m)
    if getattr(cc, "traceback", None):
        print(cc.traceback)
    return 1 if cc.failed else 0


def selftest():
    """the tools the checks need are there and the package can be loaded"""
    import z3
    import harness
    load_packages()
    n = sum(len(harness.jobs(k)) for k in harness.all_props())
    print(f"python {sys.version.split()[0]}, z3 {z3.get_version_string()}, {n} jobs")
    return 0


def run_property(prop, tier, seed):
    import harness
    t0 = time.time()
    load_packages()
    alljobs = [j for j in harness.jobs(prop) if tier in j.tiers]
    for j in alljobs:
        fn, params = j.fn, j.params
        j.fn_sym = (lambda c, fn=fn, params=params: fn(c, **params))
    states = [JobState(j) for j in alljobs]
    for st in states:
        dis = getattr(st.job, "disable", ())
        st.disable |= set(dis)
    pool = Pool(alljobs)
    pool.prop = prop
    hard = 480 if tier == "quick" else 3 * 3600
    soft = float(os.environ.get("VERIF_BUDGET") or (100 if tier == "quick" else 1800))
    try:
        run_phase(pool, states, [i for i, j in enumerate(alljobs) if j.mandatory], t0 + hard)
        optional = [i for i, j in enumerate(alljobs) if not j.mandatory]
        for k, i in enumerate(optional):
            j = alljobs[i]
            if not any(s.viol for s in states):
                # what is left is shared out among the jobs still to come
                left = (soft - (time.time() - t0)) / (len(optional) - k)
                b = min(left, j.budget or left)
                if b < 1:
                    states[i].incomplete = True
                    states[i].notes.append("no budget left")
                    continue
                run_phase(pool, states, [i], time.time() + b)
    finally:
        pool.close()
    return report(prop, tier, seed, states, time.time() - t0)


def report(prop, tier, seed, states, wall):
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = {}
    funcs = set()
    jobs = []
    samples = []
    nviol = 0
    rc = 0
    nknown = 0
    for st in states:
        for k, v in st.stats.items():
            tot[k] = tot.get(k, 0) + v
        funcs |= st.functions
        jobs.append({
            "job": st.job.name, "bounds": st.job.bounds, "exhausted_within_bounds":
            bool(not st.incomplete and not st.failed and not st.viol and st.stats.get("paths")),
            "paths": st.stats.get("paths", 0), "queries": st.stats.get("queries", 0),
            "obligations": st.stats.get("checks", 0),
            "unknown_answers": st.stats.get("unknown", 0),
            "solver_s": round(st.stats.get("solver_s", 0), 3),
            "real_runs_compared": st.stats.get("validated", 0),
            "reached": sorted(st.covered),
            "not_reached": sorted(set(st.job.covers) - st.covered),
            "stubs": list(st.job.stubs), "notes": [str(n)[:400] for n in st.notes],
            "inconclusive": st.inconclusive[:3]})
        samples += [{"job": st.job.name, "inputs": s} for s in st.samples[:1]]
        for k, v in enumerate(st.viol[:1]):
            f = match_known(prop, st.job.name, v)
            if f:
                nknown += 1
                print(f"KNOWN-FINDING: property={prop} {f.get('what', '')}")
                continue
            nviol += 1
            path = os.path.join(VERIF, "out", f"{prop}-{st.job.name}.json")
            with open(path, "w") as h:
                json.dump({"property": prop, "job": st.job.name, "values": v["values"], "msgs": v["msgs"],
                           "bounds": st.job.bounds}, h, indent=1)
            p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                               capture_output=True, text=True, timeout=300)
            print(f"{prop}/{st.job.name}: {v['msgs'][0]}  inputs {json.dumps(v['values'])[:600]}")
            if v.get("tb") and os.environ.get("VERIF_DEBUG"):
                print(v["tb"])
            if p.returncode == 1:
                print(f"VIOLATION property={prop} replay={path}")
                rc = 1
            else:
                print(f"{prop}/{st.job.name}: counterexample does not reproduce in a fresh process")
                rc = rc or 2
    decided = False
    for st in states:
        if st.viol:
            continue
        if st.failed or st.inconclusive:
            print(f"{prop}/{st.job.name}: INCONCLUSIVE {st.failed or st.inconclusive[0]}")
        elif st.incomplete:
            print(f"{prop}/{st.job.name}: bound not exhausted within the time budget, "
                  f"held on the {st.stats.get('paths', 0)} paths explored")
            decided |= bool(st.stats.get("paths"))
        elif any(s.viol for s in states) and not st.stats.get("paths"):
            print(f"{prop}/{st.job.name}: not decided, another job has a violation")
        elif not st.stats.get("paths") or not st.stats.get("checks"):
            print(f"{prop}/{st.job.name}: INCONCLUSIVE nothing was decided (vacuous)")
        else:
            decided = True
        if st.job.covers and set(st.job.covers) - st.covered and not st.failed:
            print(f"{prop}/{st.job.name}: not reached: {sorted(set(st.job.covers) - st.covered)}")
    if not decided and rc == 0:
        # no job gave an answer
        rc = 2
    done = [j for j in jobs if j["exhausted_within_bounds"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": tot.get("validated", 0), "samples": samples[:6],
            "obligations": tot.get("checks", 0),
            "exhaustive": len(done) == len(jobs),
            "inconclusive_jobs": [st.job.name for st in states if st.failed or st.inconclusive],
            "explanation": "states are the feasible paths of the symbolically executed code (each stands for "
                           "all the inputs that follow it), transitions the branch decisions put to Z3; every "
                           "obligation of a path is decided by Z3 for all the inputs of the path; traces are the "
                           "paths whose model was run on the uninstrumented package and gave the same observations",
            "functions_encoded": sorted(funcs),
            "solver": {"queries": tot.get("queries", 0), "unsat": tot.get("unsat", 0), "sat": tot.get("sat", 0),
                       "unknown": tot.get("unknown", 0), "seconds": round(tot.get("solver_s", 0), 3)},
            "pruned_by_assumptions": tot.get("pruned", 0),
            "jobs": jobs, "known_findings": nknown,
        },
        "assumptions": sorted({s for st in states for s in st.job.stubs}),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as h:
        json.dump(ev, h, indent=1, default=str)
    print(f"{prop} {tier}: {len(done)}/{len(jobs)} jobs exhausted, {tot.get('paths', 0)} paths, "
          f"{tot.get('queries', 0)} queries, {tot.get('solver_s', 0):.1f} s solver, "
          f"{tot.get('validated', 0)} real runs compared, {wall:.1f} s wall, exit {rc}")
    return rc
