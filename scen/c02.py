"""C02 - every batch job delivers its own complete result, or nothing."""
import re

from sim.slurm import Slurm, ScriptRunner, PENDING, TERMINAL
from .common import *

ID = "C02"
MAX_STEPS = 60000
NAME = re.compile(r"^P(\d+)_T(\d+\.\d\d)_J(\d+)_data_points\.npz$")
COLS = ("s_rho", "s_g", "s_gP", "s_gM")


def look(path, expect, live):
    """a file that carries the name of a result must be a complete result"""
    name = os.path.basename(path)
    d = read_npz(path)
    need(d is not None, "partial-result",
         f"{name} is in the results directory but is not a complete archive ({live})")
    for k in COLS + ("number_of_samples", "hash_vib", "hash_rho"):
        need(k in d, "partial-result", f"{name} lacks {k}")
    n = int(d["number_of_samples"])
    for k in COLS:
        need(d[k].shape == (n,), "misaligned-result",
             f"{name}: {n} samples recorded, {k} has shape {d[k].shape}")
        need(bool(np.isfinite(d[k]).all()), "unfilled-samples",
             f"{name}: {int((~np.isfinite(d[k])).sum())} of {n} values of {k} are not numbers")
    need(bool((d["s_rho"] > 0).all()), "unfilled-samples", f"{name}: s_rho is not positive")
    g = NAME.match(name)
    need(g is not None, "wrong-name", f"unexpected file {name} among the results")
    J = int(g.group(3))
    need(J in expect, "wrong-name", f"{name}: no job with that id was submitted")
    e = expect[J]
    need((int(g.group(1)), g.group(2)) == (e["P"], f"{e['T']:.2f}"), "wrong-name",
         f"{name} was produced by a job with P={e['P']} T={e['T']:.2f}")
    need(n == e["computed"], "wrong-count",
         f"{name} holds {n} samples, the job was to compute {e['computed']}")
    need(str(d["hash_vib"]) == e["pr"].hash_vib and str(d["hash_rho"]) == e["pr"].hash_rho,
         "wrong-stamp", f"{name} is stamped with the hash of another model")
    return d


def scenario(w, c):
    m = env.modules
    slurm = Slurm(w, cluster=c.pick(["nlogn", "feynman", "orca", "graham"]))
    slurm.next_id, slurm.id_step = c.pick([(4101, 1), (1, 10), (9, 90), (99, 1), (5, 50),
                                               (3, 1000), (70, 256), (17, 4096), (200, 65536),
                                               (12, 10 ** 5), (3, 10 ** 6)])
    runner = ScriptRunner(w, slurm, os.path.join(w.real_dir, "bash"))
    w.exdev = c.chance(50)
    w.p_switch = c.pick([0.1, 0.02, 0.4])
    w.hosts = c.pick([1, 1, 2, 3])
    spread = c.pick([0, 3, 30])
    slurm.start_delay = lambda job: float(w.c.sched(spread + 1, 1.0)) if spread else 0.0

    A, N = c.integer(1, 3), c.integer(1, 2)
    pr = Project(w, c, A=A, N=N, rho_states=None if c.chance(60) else c.integer(1, 4),
                 root=c.pick([("work", "pimc"), ("work", "network"), ("home", "pimc")]))
    pr.write_models()
    block = c.integer(1, 3)
    n = max(block, c.integer(2, 6) if c.chance(96) else c.integer(20, 40))
    overall = c.pick([0, n, 2 * n, 3 * n])
    Ts = c.pick([[300.0], [300.0, 250.5]])
    Ps = c.pick([[3], [3, 13], [4]])
    users = c.pick([1, 1, 2])

    # what happens to which job, decided when it starts
    victims = {}

    def misfortune(job):
        v = {"kind": None, "requeue": False}
        if c_faulty and w.c.fault(0.45):
            x = w.c.rec["fault"][w.c.counter["fault"] - 1]
            v["kind"] = ("python-crash", "script-crash", "disk", "cancel", "move-disk")[x % 5]
            v["at"] = 1 + (x // 5) % 70
            v["requeue"] = (x // 400) % 2 == 0
        return v
    c_faulty = c.chance(65)
    launched = {}

    def launch(job):
        again = launched.get(job.id, 0)
        launched[job.id] = again + 1
        v = misfortune(job) if not again else {"kind": None, "requeue": False}
        victims.setdefault(job.id, []).append(v)
        runner.launch(job)
        if v["kind"] == "script-crash":
            job.proc.crash_at = 1 + v["at"] % 14
        elif v["kind"] == "move-disk":
            job.proc.faults = {"write_error": 0.3, "meta_error": 0.05}
        elif v["kind"] == "cancel":
            w.at(v["at"] % 7, lambda: slurm.cancel(job, ("TIMEOUT", "CANCELLED")[v["at"] % 2]))
            w.fired("job_cancelled")
    slurm.runner = launch

    def configure(job, proc):
        v = victims[job.id][-1]
        if v["kind"] == "python-crash":
            proc.crash_at = v["at"]
        elif v["kind"] == "disk":
            proc.faults = {"write_error": 0.08, "short_write": 0.1, "open_error": 0.02}
    runner.configure = configure

    expect = {}
    subs = []

    def user(k):
        FS = pr.FS()
        d = {"number_of_samples": n, "block_size": block, "temperature_list": Ts,
             "bead_list": Ps, "number_of_states": A, "number_of_modes": N,
             "id_data": pr.D, "id_rho": pr.R, "number_of_samples_overall": overall}
        m.jb.PimcSubmissionClass(FS, d).submit_jobs()
    for k in range(users):
        subs.append(w.spawn(f"user{k}", lambda k=k: user(k)))

    seen = {}

    def note_jobs():
        for job in slurm.jobs.values():
            if job.id in expect:
                continue
            text = job.name
            g = re.search(r"P(\d+)_T(\d+\.\d\d)", text)
            need(g is not None, "wrong-name", f"job name {text!r} lacks its parameters")
            expect[job.id] = {"P": int(g.group(1)), "T": float(g.group(2)), "pr": pr,
                              "computed": n // block * block}

    def observe(world, label):
        try:
            names = REAL["os.listdir"](pr.results)
        except OSError:
            return
        for name in sorted(names):
            if not name.endswith("_data_points.npz"):
                continue
            path = pr.results + name
            try:
                st = REAL["os.stat"](path)
            except OSError:
                continue
            key = (st.st_ino, st.st_size, st.st_mtime_ns)
            if seen.get(path) != key:
                note_jobs()
                look(path, expect, f"observed at step {w.steps}, {label}")
                seen[path] = key
    w.observers.append(observe)

    for rounds in range(4):
        w.run(until=lambda: all(t.done for t in subs) and all(
            j.state in TERMINAL for j in slurm.jobs.values()))
        for t in subs:
            if failed(t):
                raise Violation("unexpected-failure", f"submitting: {describe(t.exc)}")
        w.run()
        # the scheduler requeues jobs whose node was lost
        again = [j for j in slurm.jobs.values() if j.state == "NODE_FAIL"
                 and victims[j.id][-1]["requeue"] and launched[j.id] < 2]
        if not again:
            break
        for j in sorted(again, key=lambda j: j.id):
            w.probe("requeued")
            w.fired("job_requeued")
            w.note("requeue", None, j.id)
            j.state, j.end_time, j.proc = PENDING, None, None
            slurm.start(j)
    for t in w.tasks:
        if t.name.startswith("job") and not t.name.endswith(".py") and failed(t):
            raise HarnessError(f"running {t.name}: {describe(t.exc)}")
    observe(w, "end")
    note_jobs()

    final = {}
    need(os.path.isdir(pr.results), "missing-result", "the results directory itself is gone")
    for name in sorted(os.listdir(pr.results)):
        if name.endswith("_data_points.npz"):
            d = look(pr.results + name, expect, "at the end")
            final.setdefault(int(NAME.match(name).group(3)), []).append((name, d))
    for J, e in sorted(expect.items()):
        files = final.get(J, [])
        need(len(files) <= 1, "duplicate-result", f"job {J} left {[x for x, _ in files]}")
        v = victims.get(J, [{"kind": None}])[-1]
        if v["kind"] is None:
            runs = [r for r in runner.python_runs if r["job"] == J]
            tail = describe(runs[-1]["exc"]) if runs and runs[-1].get("exc") else (
                read_text(slurm.jobs[J].output)[-300:] if not files else "")
            need(len(files) == 1, "missing-result",
                 f"job {J} ran to the end without a fault but its result is missing: {tail}")
    # jobs draw independently of each other
    items = [(J, x[0][1]) for J, x in sorted(final.items())]
    for i in range(len(items)):
        for j in range(i):
            a, b = items[i], items[j]
            if (expect[a[0]]["P"], expect[a[0]]["T"]) == (expect[b[0]]["P"], expect[b[0]]["T"]):
                x, y = a[1]["s_g"], b[1]["s_g"]
                if len(x) < 2 or np.ptp(x) <= 1e-9 * np.abs(x).max():
                    continue        # every configuration gives the same value in this model
                w.probe("jobs_compared")
                need(not np.array_equal(x, y), "repeated-samples",
                     f"jobs {b[0]} and {a[0]} produced the same samples")
    return {"nontrivial": len(expect) > 1,
            "desc": f"{slurm.cluster}: {len(expect)} jobs, {len(final)} results, "
                    f"misfortunes {[v['kind'] for x in victims.values() for v in x if v['kind']]}"
                    f"{', scratch on another device' if w.exdev else ''}"}
