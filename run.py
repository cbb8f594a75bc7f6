#!/usr/bin/env python3
"""Seeded search over schedules and faults, for one property.

    run.py --property C03 [--tier quick|thorough] [--runs N] [--workers N] [--first I]
    run.py --property C03 --replay FILE          replay a recorded run exactly
    run.py --property C03 --seed-run I [--log]   run one index and print its history
    run.py --selftest                            determinism of every scenario

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else is an error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
       "PYTHONHASHSEED": "0"}
if os.environ.get("PIBRONIC_SIM") != "1":
    env = dict(os.environ)
    for k, v in ENV.items():
        if k == "PYTHONHASHSEED" and "SIM_HASHSEED" in env:
            v = env["SIM_HASHSEED"]
        env[k] = v
    env["PIBRONIC_SIM"] = "1"
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse            # noqa: E402
import hashlib             # noqa: E402
import importlib           # noqa: E402
import json                # noqa: E402
import select              # noqa: E402
import shutil              # noqa: E402
import subprocess          # noqa: E402
import tempfile            # noqa: E402
import time                # noqa: E402
import traceback           # noqa: E402

sys.path.insert(0, HERE)
GROWN = 3 << 30             # memory of one worker: a run which needs more does not end
STALL_S = 100.0            # wall time without a finished run before a worker counts as hung
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.jsonl")
ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
       "C12", "C13", "C14", "C15", "C16", "C17", "C18"]


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                if shutil.disk_usage(d).free > 512 << 20:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


# --------------------------------------------------------------------------
# one run
# --------------------------------------------------------------------------
_scratch = None
_clock = time.time


def load(prop):
    from sim import env
    env.start()
    return importlib.import_module("scen." + prop.lower())


def execute(scen, choices, index=0, keep_events=False):
    """-> dict: outcome of one simulated run"""
    global _scratch
    from sim.core import World, Violation, HarnessError, StepLimit, Deadlock
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pibsim",
                                    dir=os.environ.get("PIBRONIC_SCRATCH") or scratch_base())
    r = {"violation": None, "error": None}
    w = World(choices, os.path.join(_scratch, "w"), max_steps=getattr(scen, "MAX_STEPS", 60000))
    info = None
    try:
        w.seed_tag = choices.integer(0, 1 << 20)
        with w:
            info = scen.scenario(w, choices)
    except Violation as e:
        r["violation"] = {"kind": e.kind, "message": e.message}
    except Deadlock as e:
        r["violation"] = {"kind": "stuck", "message": "every task is blocked: " + str(e)}
    except StepLimit as e:
        r["violation"] = {"kind": "no-progress", "message": str(e)}
    except HarnessError as e:
        r["error"] = "HarnessError: " + str(e)
    except Exception:
        r["error"] = traceback.format_exc()
    info = info or {}
    r["nontrivial"] = bool(info.get("nontrivial", False))
    r["desc"] = info.get("desc", "")
    r["steps"], r["switches"] = w.steps, w.switches
    r["sim_time"] = w.now - w.t0
    r["faults"] = w.faults_fired
    r["probes"] = w.probes
    r["trace"] = w.trace_hash.hexdigest()
    r["sched"] = w.sched_hash.hexdigest() if w.switches else "-"
    if keep_events:
        r["events"] = w.events
    return r


def run_index(scen, seed, index, keep_events=False):
    from sim.choices import Choices
    c = Choices(seed=f"{scen.ID}/{seed}/{index}")
    r = execute(scen, c, index, keep_events)
    r["index"] = index
    if r["violation"] or r["error"]:
        r["recorded"] = c.rec
    return r


def run_recorded(scen, recorded, keep_events=False):
    from sim.choices import Choices
    c = Choices(recorded=recorded)
    r = execute(scen, c, 0, keep_events)
    r["recorded"] = c.rec
    return r


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def canonical(rec):
    gen = list(rec["gen"])
    while gen and gen[-1] == 0:
        gen.pop()
    return {"gen": gen, "sched": {int(k): v for k, v in rec["sched"].items() if v},
            "fault": {int(k): v for k, v in rec["fault"].items() if v}}


def size_of(rec):
    return (len(rec["fault"]), len(rec["sched"]), sum(1 for g in rec["gen"] if g),
            len(rec["gen"]), sum(rec["gen"]))


def shrink(scen, recorded, kind, budget_s):
    """drop and lower decisions while the same kind of violation persists"""
    end = _clock() + budget_s
    best = canonical(recorded)
    tried = [0]

    def fails(rec):
        if _clock() > end:
            return None
        tried[0] += 1
        r = run_recorded(scen, rec)
        if r["violation"] and r["violation"]["kind"] == kind:
            return canonical(r["recorded"])
        return None

    def attempt(rec):
        nonlocal best
        got = fails(rec)
        if got is not None and size_of(got) <= size_of(best):
            best = got
            return True
        return False

    changed = True
    while changed and _clock() < end:
        changed = False
        before = json.dumps(best, sort_keys=True)
        for stream in ("fault", "sched"):
            attempt(dict(best, **{stream: {}}))
            n = max(1, len(best[stream]) // 2)
            while n >= 1 and best[stream] and _clock() < end:
                keys = sorted(best[stream])
                hit = False
                for i in range(0, len(keys), n):
                    drop = set(keys[i:i + n])
                    if attempt(dict(best, **{stream: {k: v for k, v in best[stream].items()
                                                      if k not in drop}})):
                        hit = True
                        break
                if not hit:
                    n //= 2
        n = max(1, len(best["gen"]) // 2)
        while n >= 1 and _clock() < end:
            i, hit = 0, False
            while i < len(best["gen"]) and _clock() < end:
                chunk = best["gen"][i:i + n]
                if any(chunk):
                    if attempt(dict(best, gen=best["gen"][:i] + [0] * len(chunk)
                                    + best["gen"][i + n:])):
                        hit = True
                i += n
            n //= 2
        for i in range(len(best["gen"])):
            if _clock() > end:
                break
            v = best["gen"][i] if i < len(best["gen"]) else 0
            lo = 0
            while v > lo + 1 and _clock() < end:
                mid = (lo + v) // 2
                g = list(best["gen"])
                g[i] = mid
                if attempt(dict(best, gen=g)):
                    v = best["gen"][i] if i < len(best["gen"]) else 0
                else:
                    lo = mid
        changed = json.dumps(best, sort_keys=True) != before
    return best, tried[0]


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------
def worker(args):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    scen = load(args.property)
    stop_at = _clock() + args.cap
    try:
        for index in range(args.first + args.worker, args.first + args.runs, args.of):
            if _clock() > stop_at:
                break
            out.write(json.dumps({"start": index}) + "\n")
            r = run_index(scen, args.seed, index)
            out.write(json.dumps(r) + "\n")
        out.write(json.dumps({"end": True}) + "\n")
    finally:
        out.flush()
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
    os._exit(0)


def load_known(prop):
    """known findings of this property; `fixed:` records suppress nothing"""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("{"):
                    continue
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def matches(known, violation):
    for k in known:
        if k["kind"] == violation["kind"] and k["message_contains"] in violation["message"]:
            return k
    return None


class Pool:
    def __init__(self, args, n):
        self.procs = {}
        self.args = args
        self.tail = {}
        for k in range(n):
            self.spawn(k, n, args.first)

    def spawn(self, k, n, first):
        a = self.args
        cmd = [sys.executable, os.path.abspath(__file__), "--property", a.property,
               "--worker", str(k), "--of", str(n), "--runs", str(a.runs + a.first - first),
               "--first", str(first), "--seed", str(a.seed), "--cap", str(a.cap)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True, preexec_fn=die_with_parent)
        os.set_blocking(p.stdout.fileno(), False)
        self.procs[p.stdout.fileno()] = {"p": p, "buf": b"", "k": k, "n": n, "cur": None,
                                         "since": time.monotonic(), "done": False}

    def kill(self):
        for d in self.procs.values():
            kill_tree(d["p"])


def kill_tree(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def resident(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, ValueError, IndexError):
        return 0


def die_with_parent():
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def confirm_hang(args, index):
    """run one index alone; True when it again fails to end"""
    cmd = [sys.executable, os.path.abspath(__file__), "--property", args.property,
           "--seed-run", str(index), "--seed", str(args.seed)]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True, preexec_fn=die_with_parent)
    try:
        end = time.monotonic() + STALL_S
        while time.monotonic() < end:
            try:
                p.wait(0.5)
                return False
            except subprocess.TimeoutExpired:
                if resident(p.pid) > GROWN:
                    return True
        return True
    finally:
        kill_tree(p)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


# --------------------------------------------------------------------------
# master
# --------------------------------------------------------------------------
def search(args):
    t0 = time.monotonic()
    meta = importlib.import_module("scen.meta").META[args.property]
    if args.runs is None:
        args.runs = meta["runs"][args.tier]
    args.cap = args.cap or (300.0 if args.tier == "quick" else 3000.0)
    n = args.workers or min(8, os.cpu_count() or 1)
    known = load_known(args.property)
    known_hit = {}
    pool = Pool(args, n)
    results, first_bad, error, hung = [], None, None, None
    agg = {"faults": {}, "probes": {}, "steps": 0, "switches": 0, "sim_time": 0.0}
    traces, scheds, samples = set(), set(), []
    done_runs = nontrivial = 0
    grace = None
    while pool.procs:
        ready, _, _ = select.select(list(pool.procs), [], [], 1.0)
        now = time.monotonic()
        for fd in ready:
            d = pool.procs[fd]
            try:
                chunk = os.read(fd, 1 << 16)
            except BlockingIOError:
                continue
            if not chunk:
                d["p"].wait()
                if not d["done"] and error is None and first_bad is None:
                    err = d["p"].stderr.read().decode(errors="replace")[-3000:]
                    error = f"worker {d['k']} died (rc={d['p'].returncode})\n{err}"
                del pool.procs[fd]
                continue
            d["since"] = now
            d["buf"] += chunk
            while b"\n" in d["buf"]:
                line, d["buf"] = d["buf"].split(b"\n", 1)
                r = json.loads(line)
                if "start" in r:
                    d["cur"] = r["start"]
                    continue
                if "end" in r:
                    d["done"] = True
                    continue
                if r["error"]:
                    error = error or f"run {r['index']}: {r['error']}"
                    continue
                done_runs += 1
                for key in ("faults", "probes"):
                    for k, v in r[key].items():
                        agg[key][k] = agg[key].get(k, 0) + v
                for key in ("steps", "switches", "sim_time"):
                    agg[key] += r[key]
                if r["nontrivial"]:
                    nontrivial += 1
                    traces.add(r["trace"] + r["sched"])
                scheds.add(r["sched"])
                if r["desc"] and (len(samples) < 4 or (r["faults"] and len(samples) < 8)):
                    samples.append({"index": r["index"], "case": r["desc"],
                                    "faults": r["faults"], "switches": r["switches"],
                                    "steps": r["steps"], "sim_seconds": round(r["sim_time"], 1)})
                if r["violation"]:
                    k = matches(known, r["violation"])
                    if k is not None:
                        known_hit[k["id"]] = known_hit.get(k["id"], 0) + 1
                    elif first_bad is None or r["index"] < first_bad["index"]:
                        first_bad = r
                        grace = grace or now + 2.0
        for fd, d in list(pool.procs.items()):
            if not d["done"] and (now - d["since"] > STALL_S or resident(d["p"].pid) > GROWN):
                hung = d["cur"]
        if error or hung is not None:
            break
        if grace is not None and now > grace:
            break
    pool.kill()
    if hung is not None and first_bad is None and error is None:
        if hung is not None and confirm_hang(args, hung):
            first_bad = {"index": hung, "hang": True, "violation": {
                "kind": "hang", "message": f"the run made no progress for {STALL_S:.0f} s of "
                f"wall time or took {GROWN >> 30} GB of memory, twice: the code loops without end"}}
        else:
            error = f"run {hung} stalled once but finished when repeated"
    replay = None
    if first_bad is not None:
        replay = report(args, first_bad)
    wall = time.monotonic() - t0
    ev = {"property": args.property, "tier": args.tier, "seed": args.seed,
          "level": "exploration", "wall_s": round(wall, 2),
          "violations": 0 if first_bad is None else 1,
          "assumptions": meta["assumptions"],
          "coverage": {
              "evaluations": done_runs, "distinct_nontrivial": len(traces),
              "rule": meta["rule"], "samples": samples,
              "nontrivial_runs": nontrivial, "runs_planned": args.runs,
              "runs_per_hour": int(done_runs / max(wall, 1e-3) * 3600),
              "seeds": [f"{args.property}/{args.seed}/{args.first}..{args.first + args.runs - 1}"],
              "simulated_seconds": round(agg["sim_time"], 1),
              "simulated_operations": agg["steps"], "task_switches": agg["switches"],
              "faults_injected": dict(sorted(agg["faults"].items())),
              "rare_conditions_reached": dict(sorted(agg["probes"].items())),
              "distinct_interleavings": len(scheds),
              "interleaving_measure": "distinct SHA-1 of the sequence of (task, step) at which "
                                      "the scheduler switched",
              "known_findings_hit": known_hit,
              "real_components": meta["real"], "stub_components": meta["stub"],
              "workers": n}}
    write_json(os.path.join(HERE, "evidence", args.property + ".json"), ev)
    for k in known:
        if k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={args.property} {k['what']}")
    if first_bad is not None:
        v = first_bad["violation"]
        print(f"property {args.property}: {v['kind']}: {v['message']}")
        print(f"seed {args.property}/{args.seed}/{first_bad['index']}, "
              f"after {done_runs} runs in {wall:.1f} s")
        print(f"VIOLATION property={args.property} replay={replay}")
        return 1
    if error is not None:
        print("ERROR (of the check, not a verdict): " + error, file=sys.stderr)
        return 2
    if done_runs < max(1, args.runs // 4):
        print(f"ERROR: only {done_runs} of {args.runs} runs finished in time", file=sys.stderr)
        return 2
    print(f"property {args.property}: held in {done_runs} runs ({nontrivial} non-trivial, "
          f"{len(scheds)} interleavings, faults {sum(agg['faults'].values())}) in {wall:.1f} s")
    return 0


def report(args, bad):
    """minimise, write the replay file, and make sure a fresh process reproduces it"""
    path = os.path.join(REPLAYS, f"{args.property}-{args.seed}-{bad['index']}.json")
    obj = {"property": args.property, "seed": args.seed, "index": bad["index"],
           "violation": bad["violation"], "tree": os.environ.get("PIBRONIC_TREE", "/repo")}
    if bad.get("hang"):
        obj["hang"] = True
        write_json(path, obj)
        return path
    obj["recorded"] = canonical(bad["recorded"])
    obj["original_size"] = size_of(obj["recorded"])
    write_json(path, obj)
    cmd = [sys.executable, os.path.abspath(__file__), "--property", args.property,
           "--shrink", path, "--cap", "60"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, preexec_fn=die_with_parent)
    try:
        p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        pass
    finally:
        kill_tree(p)
    for attempt in range(2):
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--property",
                            args.property, "--replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=200)
        ok = p.returncode == 1
        if ok:
            break
        write_json(path, obj)      # fall back to the unminimised record
    try:
        with open(path) as f:
            bad["violation"] = json.load(f)["violation"]
    except Exception:
        pass
    print("replay in a fresh process " + ("reproduces the violation" if ok
                                          else "DID NOT reproduce the violation"))
    return path


def do_shrink(args):
    with open(args.shrink) as f:
        obj = json.load(f)
    scen = load(args.property)
    best, tried = shrink(scen, obj["recorded"], obj["violation"]["kind"], args.cap or 60.0)
    r = run_recorded(scen, best, keep_events=True)
    cleanup()
    if r["violation"] and r["violation"]["kind"] == obj["violation"]["kind"]:
        obj["recorded"] = best
        obj["violation"] = r["violation"]
        obj["minimised_size"] = size_of(best)
        obj["minimisation_runs"] = tried
        obj["case"] = r["desc"]
        obj["faults"] = r["faults"]
        obj["trace"] = r["trace"]
        obj["history"] = [list(e) for e in r["events"][-120:]]
        write_json(args.shrink, obj)
    return 0


def do_replay(args):
    from sim import env
    with open(args.replay) as f:
        obj = json.load(f)
    if obj.get("hang"):
        args.seed = obj["seed"]
        bad = confirm_hang(args, obj["index"])
        print("hang reproduced" if bad else "finished normally")
        if bad:
            print(f"VIOLATION property={obj['property']} replay={args.replay}")
        return 1 if bad else 0
    scen = load(obj["property"])
    r = run_recorded(scen, obj["recorded"], keep_events=True)
    cleanup()
    out = env.real_stdout
    for e in r["events"]:
        out.write("%5d %9.3f %-14s %-18s %s\n" % tuple(e))
    if r["error"]:
        out.write("ERROR " + r["error"] + "\n")
        return 2
    if r["violation"]:
        out.write(f"{r['violation']['kind']}: {r['violation']['message']}\n")
        same = "trace" not in obj or obj["trace"] == r["trace"]
        out.write(f"history {'identical to' if same else 'DIFFERS from'} the recorded one\n")
        out.write(f"VIOLATION property={obj['property']} replay={args.replay}\n")
        out.flush()
        return 1
    out.write("the recorded run does not violate the property on this tree\n")
    out.flush()
    return 0


def do_seed_run(args):
    from sim import env
    scen = load(args.property)
    r = run_index(scen, args.seed, args.seed_run, keep_events=args.log)
    cleanup()
    out = env.real_stdout
    for e in r.pop("events", []):
        out.write("%5d %9.3f %-14s %-18s %s\n" % tuple(e))
    if r["error"]:
        out.write(r["error"])
    out.write(json.dumps({k: v for k, v in r.items() if k != "recorded"}) + "\n")
    out.flush()
    return 1 if r["violation"] else (2 if r["error"] else 0)


def selftest(args):
    """the same seeds at several worker counts give the same histories (string hashing is pinned)"""
    meta = importlib.import_module("scen.meta").META
    bad = 0
    for prop in ([args.property] if args.property else sorted(meta)):
        runs = args.runs or 64
        logs = []
        for workers, hs in ((8, "0"), (3, "0"), (5, "0"), (1, "0")):
            got = {}
            procs = []
            for k in range(workers):
                env = dict(os.environ, SIM_HASHSEED=hs)
                env.pop("PIBRONIC_SIM")
                procs.append(subprocess.Popen(
                    [sys.executable, os.path.abspath(__file__), "--property", prop, "--worker",
                     str(k), "--of", str(workers), "--runs", str(runs), "--first", "0",
                     "--seed", str(args.seed), "--cap", "600"], env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE))
            for p in procs:
                out, err = p.communicate()
                for line in out.splitlines():
                    r = json.loads(line)
                    if "index" in r:
                        got[r["index"]] = (r["trace"], r["sched"], r["steps"], r["switches"],
                                           json.dumps(r["violation"]), bool(r["error"]),
                                           json.dumps(r["faults"], sort_keys=True))
            logs.append(got)
        diff = [i for i in range(runs) if len({lg.get(i) for lg in logs}) != 1]
        print(f"{prop}: {runs} seeds x {len(logs)} configurations, "
              f"{len(diff)} diverge{' ' + str(diff[:10]) if diff else ''}", flush=True)
        bad += len(diff)
    return 1 if bad else 0


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--of", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--shrink")
    ap.add_argument("--seed-run", type=int)
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker is not None:
        return worker(args)
    if "PIBRONIC_SCRATCH" not in os.environ:
        base = tempfile.mkdtemp(prefix="pibsim", dir=scratch_base())
        os.environ["PIBRONIC_SCRATCH"] = base
        try:
            return dispatch(args)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return dispatch(args)


def dispatch(args):
    if args.selftest:
        return selftest(args)
    if args.shrink:
        return do_shrink(args)
    if args.replay:
        return do_replay(args)
    if args.seed_run is not None:
        return do_seed_run(args)
    return search(args)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
