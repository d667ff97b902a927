"""Common machinery: run cases of the real code under monitors, collect verdicts.

A property module defines STREAMS.  One *case* = one deterministic workload
(stream name, seed, index) executed against the code in /repo with monitors
attached.  Monitors report through Ctx: events (what was observed), states
(hashes of distinct non-trivial observations) and failures (oracle verdicts).
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class Watchdog(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Inconclusive(Exception):
    """raised by a harness when an oracle cannot decide this case"""


def _h(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


class Stream:
    def __init__(self, fn, quick, thorough, need=(), timeout=30, steps=3_000_000, heavy=False):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.need = tuple(need)          # event names that must be observed at least once
        self.timeout = timeout           # wall-clock watchdog (inconclusive unless step budget confirms)
        self.steps = steps               # logical budget of loop iterations in library code
        self.heavy = heavy


class Ctx:
    """what one case may use and report"""

    def __init__(self, prop, stream, seed, index, tier="quick"):
        import numpy as np
        self.prop, self.stream, self.seed, self.index, self.tier = prop, stream, seed, index, tier
        base = [_h(f"{prop}/{stream}"), seed, index]
        self.rng = np.random.default_rng(base)
        self.pyr = random.Random(_h(f"{prop}/{stream}/{seed}/{index}"))
        # global generators used by the library are seeded per case
        s = _h(f"g/{prop}/{stream}/{seed}/{index}") % (2 ** 32)
        np.random.seed(s)
        random.seed(s)
        self.events = Counter()
        self.states = set()
        self.fails = []
        self.sample = None

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *parts):
        """record one distinct non-trivial observation"""
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def note(self, obj):
        if self.sample is None:
            self.sample = obj

    def fail(self, key, msg, **data):
        self.fails.append({"key": key, "msg": str(msg)[:2000], "data": {k: _js(v) for k, v in data.items()}})

    def check(self, cond, key, msg="", **data):
        self.event("oracle_checks")
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, **data)
        return bool(cond)

    def call(self, what, fn, *a, **k):
        """run library code on a valid input; an exception refutes the property"""
        try:
            return True, fn(*a, **k)
        except (Watchdog, StepBudget, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if "/causallearn/" in f.filename]
            where = f"{os.path.basename(last[-1].filename)}:{last[-1].name}" if last else "?"
            self.fail(f"raises/{what}/{type(e).__name__}@{where}",
                      f"{what} raised {type(e).__name__}: {e}", tb="".join(traceback.format_exception(e))[-1800:])
            return False, None


def _js(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 400 else f"array{v.shape}"
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)[:600]


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def _quiet():
    """compiled optimisers print through the file descriptor"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.close(fd)


_MON_ID = 3


def _arm_steps(budget):
    """count loop iterations executed inside /repo; raise StepBudget beyond the budget"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(_MON_ID, "vf-steps")
    except ValueError:
        pass
    n = [0]

    def jump(code, off, dst):
        if "/causallearn/" not in code.co_filename:
            return mon.DISABLE
        if dst < off or True:
            n[0] += 1
            if n[0] > budget:
                n[0] = -10 ** 12
                raise StepBudget()

    mon.register_callback(_MON_ID, mon.events.JUMP, jump)
    mon.register_callback(_MON_ID, mon.events.BRANCH, jump)
    mon.set_events(_MON_ID, mon.events.JUMP | mon.events.BRANCH)
    return n


def _disarm_steps():
    mon = sys.monitoring
    mon.set_events(_MON_ID, 0)
    mon.register_callback(_MON_ID, mon.events.JUMP, None)
    mon.register_callback(_MON_ID, mon.events.BRANCH, None)
    mon.free_tool_id(_MON_ID)
    mon.restart_events()


def _alarm(sig, frm):
    raise Watchdog()


def run_case(mod, name, seed, index, tier):
    st = mod.STREAMS[name]

    def once(limit):
        ctx = Ctx(mod.ID, name, seed, index, tier)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        t0 = time.time()
        status = "done"
        try:
            with contextlib.redirect_stdout(_Sink()), contextlib.redirect_stderr(_Sink()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                st.fn(ctx)
        except Watchdog:
            status = "watchdog"
        except StepBudget:
            status = "steps"
        except Inconclusive as e:
            status = "inconclusive"
            ctx.event("inconclusive:" + str(e)[:60])
        except MemoryError:
            status = "inconclusive"
        except Exception as e:
            fr = traceback.extract_tb(e.__traceback__)
            lib = [i for i, f in enumerate(fr) if "/causallearn/" in f.filename]
            own = [i for i, f in enumerate(fr) if f.filename.startswith(VERIF)]
            if lib and (not own or lib[-1] > own[-1]):
                # raised inside the library while a monitor was feeding it a valid input
                f = fr[lib[-1]]
                ctx.fail(f"raises/{name}/{type(e).__name__}@{os.path.basename(f.filename)}:{f.name}",
                         f"library raised {type(e).__name__}: {e}", tb=traceback.format_exc()[-1800:])
            else:
                status = "harness"
                ctx.event("harness_error")
                ctx.fail("harness/" + type(e).__name__, traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ctx, status, time.time() - t0

    ctx, status, dt = once(st.timeout)
    if status == "watchdog":
        # Decide on logical steps, not on the clock.
        _arm_steps(st.steps)
        try:
            ctx, status, dt2 = once(max(240, 4 * st.timeout))
        finally:
            _disarm_steps()
        dt += dt2
        if status == "steps":
            ctx.fail(f"nonterminating/{name}",
                     f"library code exceeded {st.steps} loop/branch steps on a small input without returning")
            status = "done"
    return {"stream": name, "index": index, "status": status, "dt": dt, "events": dict(ctx.events),
            "states": list(ctx.states), "fails": ctx.fails, "sample": _js(ctx.sample)}


_MOD = None
_HUNG = Counter()


def _work(task):
    name, seed, idxs, tier, deadline = task
    out = []
    for i in idxs:
        if time.time() > deadline or _HUNG[name] >= 2:
            out.append({"stream": name, "index": i, "status": "skipped", "dt": 0, "events": {}, "states": [],
                        "fails": [], "sample": None})
            continue
        out.append(run_case(_MOD, name, seed, i, tier))
        # a stream that keeps running out of logical steps has made its point: do not spend the run on it
        _HUNG[name] += any(f["key"].startswith("nonterminating/") for f in out[-1]["fails"]) or out[-1]["status"] == "watchdog"
    return out


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status", "open") == "open"]


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--stream", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--failfast", action="store_true")
    a = ap.parse_args(argv)
    global _MOD
    t0 = time.time()
    sys.path.insert(0, REPO)
    _MOD = mod = importlib.import_module("vf.props." + a.prop)
    assert mod.ID == a.prop
    scratch = tempfile.mkdtemp(prefix="vf_")
    os.chdir(scratch)
    try:
        return _main(a, mod, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, mod, t0):
    import causallearn
    assert os.path.realpath(list(causallearn.__path__)[0]).startswith(os.path.realpath(REPO)), causallearn.__path__
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        res = run_case(mod, r["stream"], r["seed"], r["index"], r["tier"])
        print(json.dumps({k: res[k] for k in ("status", "events", "fails", "sample")}, indent=1)[:20000])
        return 1 if res["fails"] else 0

    budget = a.budget or (540 if a.tier == "quick" else 3000)
    deadline = t0 + budget
    tasks = []
    for name, st in mod.STREAMS.items():
        if a.stream and name not in a.stream:
            continue
        n = a.n or (st.quick if a.tier == "quick" else st.thorough)
        per = 1 if st.heavy else max(1, min(25, n // 32 or 1))
        for s in range(0, n, per):
            tasks.append((name, a.seed, list(range(s, min(n, s + per))), a.tier, deadline))
    # interleave streams so that a deadline cuts all of them alike; heavy ones first
    order = sorted(range(len(tasks)), key=lambda i: (not mod.STREAMS[tasks[i][0]].heavy, tasks[i][2][0]))
    tasks = [tasks[i] for i in order]
    res = []
    lost = 0
    known = load_known(a.prop)
    if a.jobs <= 1:
        for t in tasks:
            res += _work(t)
    else:
        pool = mp.get_context("fork").Pool(a.jobs, initializer=_quiet, maxtasksperchild=None)
        try:
            pend = [pool.apply_async(_work, (t,)) for t in tasks]
            for p in pend:
                left = deadline + 120 - time.time()
                try:
                    res += p.get(timeout=max(1.0, left))
                except mp.TimeoutError:
                    lost += 1
                if a.failfast and any(not f["key"].startswith("harness/") and not any(_match(k, f["key"]) for k in known) for x in res[-50:] for f in x["fails"]):
                    break
        finally:
            pool.terminate()
            pool.join()
    return report(a, mod, res, lost, t0)


def report(a, mod, res, lost, t0):
    res.sort(key=lambda r: (r["stream"], r["index"]))
    events, states, status = Counter(), set(), Counter()
    per = {}
    samples = []
    groups = {}
    fresh = 0        # executed cases that contributed a non-trivial observation not seen before
    for r in res:
        events.update(r["events"])
        status[r["status"]] += 1
        p = per.setdefault(r["stream"], {"cases": 0, "done": 0, "distinct": set(), "events": Counter(), "cpu_s": 0.0, "sampled": 0})
        p["cases"] += 1
        p["done"] += r["status"] == "done"
        p["distinct"].update(r["states"])
        p["events"].update(r["events"])
        p["cpu_s"] += r["dt"]
        new = {(r["stream"], s) for s in r["states"]} - states
        fresh += bool(new)
        states |= new
        if r["sample"] is not None and p["sampled"] < 2:
            p["sampled"] += 1
            samples.append({"stream": r["stream"], "index": r["index"], "case": r["sample"]})
        for f in r["fails"]:
            groups.setdefault(f["key"], []).append((r, f))
    known = load_known(a.prop)
    viol = {}
    kf_hits = Counter()
    harness = {}
    for key, lst in groups.items():
        if key.startswith("harness/"):
            harness[key] = lst
            continue
        k = next((k for k in known if _match(k, key)), None)
        if k is not None:
            kf_hits[k["key"]] += len(lst)
        else:
            viol[key] = lst
    executed = sum(v for s, v in status.items() if s in ("done",))
    # reached-monitor discipline
    missing = []
    for name, st in mod.STREAMS.items():
        if a.stream and name not in a.stream:
            continue
        ev = per.get(name, {}).get("events", Counter())
        for need in st.need:
            if ev.get(need, 0) == 0:
                missing.append(f"{name}:{need}")
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    lines = []
    for key in sorted(viol):
        r, f = viol[key][0]
        rp = os.path.join(EVID, "replay", f"{a.prop}-{hashlib.md5(key.encode()).hexdigest()[:10]}.json")
        with open(rp, "w") as fh:
            json.dump({"property": a.prop, "stream": r["stream"], "seed": a.seed, "index": r["index"], "tier": a.tier,
                       "key": key, "count": len(viol[key]), "msg": f["msg"], "data": f["data"], "case": r["sample"]}, fh, indent=1)
        lines.append((key, rp, len(viol[key]), r, f))
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']} [key {k['key']}; seen {kf_hits[k['key']]}x in this run]")
    for key, rp, n, r, f in lines[:12]:
        print(f"VIOLATION property={a.prop} replay={rp}")
        print(f"  key={key} ({n}x) first at stream={r['stream']} index={r['index']} seed={a.seed}: {f['msg'][:600]}")
        if a.verbose:
            print("   data:", json.dumps(f["data"])[:3000])
            print("   case:", json.dumps(r["sample"])[:1500])
    for key, lst in harness.items():
        print(f"HARNESS-ERROR {key} ({len(lst)}x) stream={lst[0][0]['stream']} index={lst[0][0]['index']}\n{lst[0][1]['msg']}")
    if missing:
        print("INCONCLUSIVE monitors never reached:", missing)
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": executed,
            "distinct_nontrivial": fresh,
            "distinct_observations": len(states),
            "rule": mod.RULE,
            "samples": samples[:24] or ["none"],
            "case_status": dict(status),
            "monitor_events": dict(sorted(events.items())),
            "per_stream": {k: {"cases": v["cases"], "completed": v["done"], "distinct": len(v["distinct"]),
                               "cpu_s": round(v["cpu_s"], 2), "events": dict(sorted(v["events"].items()))}
                           for k, v in sorted(per.items())},
            "chunks_lost_to_deadline": lost,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(lines), "violation_list": [{"key": k, "count": n, "replay": os.path.relpath(rp, VERIF)} for k, rp, n, _, _ in lines],
        "known_findings_seen": dict(kf_hits),
        "wall_s": round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{a.prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{a.prop}.json"))
    print(f"{a.prop} tier={a.tier} seed={a.seed}: {executed} cases, {fresh} distinct cases, {len(states)} distinct observations, "
          f"{events.get('oracle_checks', 0)} oracle checks, status={dict(status)}, {wall:.1f}s")
    if a.verbose:
        for k, v in sorted(per.items()):
            print(f"   {k}: {v['cases']} cases {v['cpu_s']:.1f} cpu-s {len(v['distinct'])} distinct {dict(v['events'])}")
    if lines:
        return 1
    if harness or missing or executed == 0:
        return 2
    return 0


def _match(k, key):
    import fnmatch
    return fnmatch.fnmatchcase(key, k["key"]) if k.get("glob") else k["key"] == key


if __name__ == "__main__":
    sys.exit(main())
