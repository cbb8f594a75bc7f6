"""C16 - from request to estimate: exactly the delivered samples of the current models count."""
import re

from sim.slurm import Slurm, ScriptRunner, TERMINAL
from .common import *
from . import thermo

ID = "C16"
MAX_STEPS = 120000
RESULT = re.compile(r"^P(\d+)_T(\d+\.\d\d)_J(\d+)_data_points\.npz$")
THERMO = re.compile(r"^P(\d+)_T(\d+\.\d\d)_X(\d+)_thermo$")


def ended(t):
    e = t.exc
    if isinstance(e, (NameError, UnboundLocalError)) and __name__ in describe(e):
        raise HarnessError(describe(e))
    return failed(t)


class Session:
    """one long-lived process (a notebook) in which the user does one thing after the other"""

    class Step:
        def __init__(self, name, f):
            self.name, self.f, self.done, self.exc, self.result = name, f, False, None, None

    def __init__(self, w):
        self.w, self.todo, self.open, self.all = w, [], True, []
        self.task = w.spawn("session", self.body)
        self.task.proc.out = []

    def body(self):
        while True:
            self.w.block(lambda: self.todo or not self.open, "the user")
            if not self.todo:
                return
            x = self.todo.pop(0)
            try:
                x.f()
            except Exception as e:
                x.exc = e
            x.done = True

    def spawn(self, name, f):
        x = self.Step(name, f)
        self.todo.append(x)
        self.all.append(x)
        return x


class Ledger:
    """what was delivered, in the order it was, and every estimate that was ever visible"""

    def __init__(self, w, pr):
        self.w, self.pr = w, pr
        self.versions = []             # stamps (hash_vib, hash_rho) that were ever in place
        self.analytic = {}             # stamp -> content of the analytic file
        self.files = []                # (stamp, P, T, J, rows)
        self.by_name = {}
        self.seen = {}
        self.kinds = []                # (method, jackknife) of the analyses
        self.checked = 0

    def model_now(self, c):
        stamp = (self.pr.hash_vib, self.pr.hash_rho)
        self.versions.append(stamp)
        a = thermo.analytic_file(c, thermo.TEMPS, *stamp)
        self.analytic[stamp] = a
        write_text(self.pr.rhod + "parameters/analytic_results.json", json.dumps(a))

    def result(self, name, path, label):
        g = RESULT.match(name)
        need(g is not None, "wrong-name", f"unexpected file {name} among the results ({label})")
        P, T, J = int(g.group(1)), float(g.group(2)), int(g.group(3))
        d = read_npz(path)
        need(d is not None, "partial-result", f"{name} is not a complete result ({label})")
        rows = np.stack([d[k] for k in ("s_rho", "s_g", "s_gP", "s_gM")], 1)
        need(bool(np.isfinite(rows).all()), "unfilled-samples", f"{name}: samples are missing")
        stamp = (str(d["hash_vib"]), str(d["hash_rho"]))
        old = self.by_name.get(name)
        if old is not None:
            need(np.array_equal(old[4], rows), "altered-result", f"{name} was changed ({label})")
            return
        x = (stamp, P, T, J, rows)
        self.by_name[name] = x
        self.files.append(x)

    def rows(self, stamp, P, T):
        return [f[4] for f in self.files if f[0] == stamp and (f[1], f[2]) == (P, T)]

    def thermo(self, name, path, label):
        g = THERMO.match(name)
        need(g is not None, "wrong-name", f"unexpected thermo file {name}")
        P, T, X = int(g.group(1)), float(g.group(2)), int(g.group(3))
        try:
            d = json.loads(read_text(path))
        except ValueError:
            raise Violation("partial-thermo", f"{name} is not complete ({label})")
        stamp = (d.get("hash_vib"), d.get("hash_rho"))
        need(stamp in self.analytic, "wrong-stamp", f"{name} carries the hashes of no model")
        parts = self.rows(stamp, P, T)
        why = f"{sum(map(len, parts))} samples were delivered for its models in {len(parts)} files"
        for k in range(1, len(parts) + 1):
            rows = np.concatenate(parts[:k])
            if len(rows) != X:
                continue
            for method, jk in dict.fromkeys(self.kinds):
                bad = thermo.same(d, thermo.reference(rows, T, self.analytic[stamp], method, jk))
                if bad is None:
                    self.checked += 1
                    return stamp, P, T, X, (method, jk)
                why = f"{method}{'/jackknife' if jk else ''} of the {X} samples: {bad}"
        raise Violation("wrong-estimate", f"{name} ({label}): {why}")

    def look(self, world=None, label="the end"):
        names = REAL["os.listdir"](self.pr.results)
        for f, suffix in ((self.result, "_data_points.npz"), (self.thermo, "_thermo")):
            for name in sorted(names):
                if not name.endswith(suffix):
                    continue
                path = self.pr.results + name
                try:
                    st = REAL["os.stat"](path)
                except OSError:
                    continue
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if self.seen.get(name) != key:
                    f(name, path, f"at {label}")
                    self.seen[name] = key


def scenario(w, c):
    m = env.modules
    slurm = Slurm(w, cluster=c.pick(["nlogn", "feynman", "orca", "graham"]))
    slurm.next_id = c.pick([1, 99, 4101])
    slurm.id_step = c.pick([1, 1, 1, 3, 10, 100, 256, 1000, 4096, 65536, 10 ** 5, 10 ** 6])
    runner = ScriptRunner(w, slurm, os.path.join(w.real_dir, "bash"))
    w.exdev = c.chance(40)
    w.p_switch = c.pick([0.1, 0.02, 0.4])
    w.hosts = c.pick([1, 1, 2, 3])
    spread = c.pick([0, 3, 30])
    slurm.start_delay = lambda job: float(w.c.sched(spread + 1, 1.0)) if spread else 0.0
    A, N = c.integer(1, 2), c.integer(1, 2)
    pr = Project(w, c, A=A, N=N, rho_states=None if c.chance(60) else c.integer(1, 3),
                 root=("work", "pimc"))
    pr.write_models()
    led = Ledger(w, pr)
    led.model_now(c)
    w.observers.append(led.look)
    Ts = c.pick([[300.0], [300.0, 250.5], [1300.0]])
    Ps = c.pick([[3], [3, 13], [4]])

    victims = {}
    troubled = [c.chance(60)]

    def launch(job):
        v = {"kind": None}
        if troubled[0] and w.c.fault(0.35):
            x = w.c.rec["fault"][w.c.counter["fault"] - 1]
            v = {"kind": ("python-crash", "script-crash", "disk", "cancel")[x % 4],
                 "at": 1 + (x // 4) % 70}
        victims[job.id] = v
        runner.launch(job)
        if v["kind"] == "script-crash":
            job.proc.crash_at = 1 + v["at"] % 14
        elif v["kind"] == "cancel":
            w.at(v["at"] % 7, lambda: slurm.cancel(job, ("TIMEOUT", "CANCELLED")[v["at"] % 2]))
            w.fired("job_cancelled")

    def configure(job, proc):
        v = victims[job.id]
        if v["kind"] == "python-crash":
            proc.crash_at = v["at"]
        elif v["kind"] == "disk":
            proc.faults = {"write_error": 0.08, "short_write": 0.1, "open_error": 0.02}
    slurm.runner, runner.configure = launch, configure
    block = c.integer(1, 3)
    n = block * c.integer(1, 2) if block > 1 else c.integer(2, 4)

    def submit(temps, beads, overall):
        d = {"number_of_samples": n, "block_size": block, "temperature_list": list(temps),
             "bead_list": list(beads), "number_of_states": A, "number_of_modes": N,
             "id_data": pr.D, "id_rho": pr.R, "number_of_samples_overall": overall}
        m.jb.PimcSubmissionClass(pr.FS(), d).submit_jobs()

    asked = {}
    session = Session(w) if c.chance(35) else None

    def spawn(name, f):
        """the next thing the user does: in a process of its own, or in the session"""
        if session is not None:
            return session.spawn(name, f)
        t = w.spawn(name, f)
        t.proc.out = []
        return t

    def settle():
        """until nothing moves any more (but the session, which waits for the user)"""
        if session is None:
            w.run()
        else:
            w.run(until=lambda: all(t.done for t in w.tasks if t is not session.task)
                  and all(x.done for x in session.all)
                  and all(j.state in TERMINAL for j in slurm.jobs.values()))

    def request(temps, beads, overall):
        for T in temps:
            for P in beads:
                asked[P, T] = asked.get((P, T), 0) + max(n, overall)

    def analyse(kind):
        FS = pr.FS(no_makedir=True)
        thermo.run_analysis(FS, *kind)

    kinds = [(method, jk) for method in ("basic", "alpha") for jk in (False, True)]
    analyses = []

    def visible(stamp):
        return any(f[0] == stamp for f in led.files)
    # a campaign: requests and analyses, while the jobs run, sometimes with a new model
    steps = []
    for _ in range(c.integer(1, 4)):
        steps.append(c.pick(["request", "analyse", "analyse", "wait", "model"]))
    steps = ["request"] + steps
    tasks, k = [], 0
    for s in steps:
        k += 1
        if s == "request":
            temps, beads = c.subset(Ts) or Ts[:1], c.subset(Ps) or Ps[:1]
            overall = c.pick([0, n, 2 * n, 3 * n])
            request(temps, beads, overall)
            t = spawn(f"user{k}", lambda a=temps, b=beads, o=overall: submit(a, b, o))
            tasks.append(t)
            if c.chance(60):
                w.run(until=lambda t=t: t.done)
        elif s == "analyse":
            kind = c.pick(kinds)
            led.kinds.append(kind)
            led.look()
            t = spawn(f"analysis{k}", lambda kind=kind: analyse(kind))
            crash = c.chance(25)
            if crash and session is None:
                t.proc.crash_at = c.integer(1, 90)
            analyses.append([t, visible(led.versions[-1]), len(led.versions)])
            if c.chance(50):
                w.run(until=lambda t=t: t.done)
        elif s == "wait":
            w.run(until=lambda: all(t.done for t in tasks) and any(
                j.state in TERMINAL for j in slurm.jobs.values()))
        else:
            # the user improves the model; what was asked for has to be computed again
            if c.chance(60):
                pr.vib = models.coupled(c, A, N)
                pr.vib[models.K_W] = np.array(pr.rho[models.K_W])
            else:
                pr.rho = models.diagonal(c, int(pr.rho[models.K_A]), N, pr.vib[models.K_W])
            pr.set_vib(models.to_text(pr.vib))
            pr.set_rho(models.to_text(pr.rho))
            led.model_now(c)
            w.probe("model_replaced")
            asked.clear()
            for a in analyses:
                if not a[0].done:
                    a[2] = -1
            temps, beads = c.subset(Ts) or Ts[:1], c.subset(Ps) or Ps[:1]
            request(temps, beads, n)
            t = spawn(f"user{k}", lambda a=temps, b=beads: submit(a, b, n))
            tasks.append(t)
    w.run(until=lambda: all(t.done for t in tasks) and all(
        j.state in TERMINAL for j in slurm.jobs.values()))
    settle()
    for t in tasks:
        if ended(t):
            raise Violation("unexpected-failure", f"submitting: {describe(t.exc)}")
    for t in w.tasks:
        if t.name.startswith("job") and not t.name.endswith(".py") and failed(t):
            raise HarnessError(f"running {t.name}: {describe(t.exc)}")
    for t, there, still in analyses:
        if ended(t) and there and still == len(led.versions):
            raise Violation("unexpected-failure", f"analysis: {describe(t.exc)}")

    # the troubles are over: what is missing is asked for again, once
    troubled[0] = False
    stamp = led.versions[-1]
    for (P, T), want in sorted(asked.items()):
        have = sum(map(len, led.rows(stamp, P, T)))
        if have < want:
            w.probe("asked_again")
            t = spawn("user-again", lambda P=P, T=T, o=want - have: submit([T], [P], o))
            settle()
            w.check_task(t, "submitting the missing samples")
    w.run(until=lambda: all(j.state in TERMINAL for j in slurm.jobs.values()))
    settle()
    if led.checked:
        w.probe("intermediate_estimate_checked")
    last = c.pick(kinds)
    led.kinds.append(last)
    t = spawn("final-analysis", lambda: analyse(last))
    settle()
    if session is not None:
        session.open = False
        w.run()
        w.check_task(session.task, "the session")
        w.probe("one_session")
    w.check_task(t, "the final analysis")
    led.look()
    need(os.path.isdir(pr.results), "missing-result", "the results directory itself is gone")
    names = sorted(os.listdir(pr.results))
    total = 0
    for (P, T), want in sorted(asked.items()):
        parts = led.rows(stamp, P, T)
        X = sum(map(len, parts))
        need(X >= want, "missing-samples",
             f"P={P} T={T}: {want} samples were asked for, {X} were delivered for the current "
             f"models, although the missing ones were asked for again without any fault")
        name = f"P{P:d}_T{T:.2f}_X{X:d}_thermo"
        need(name in names, "missing-thermo",
             f"P={P} T={T}: {X} samples were delivered and analysed, there is no {name}: "
             f"{[x for x in names if x.endswith('_thermo')]}")
        got = led.thermo(name, pr.results + name, "the end")
        need(got[0] == stamp, "stale-thermo", f"{name} is of an older model after the analysis")
        total += X
    for P, T in sorted({(f[1], f[2]) for f in led.files if f[0] == stamp}):
        X = sum(map(len, led.rows(stamp, P, T)))
        need(f"P{P:d}_T{T:.2f}_X{X:d}_thermo" in names, "missing-thermo",
             f"P={P} T={T}: {X} samples were delivered and not analysed")
    ids = [f[3] for f in led.files]
    need(len(ids) == len(set(ids)), "duplicate-result", f"a job delivered twice: {sorted(ids)}")
    return {"nontrivial": len(led.files) > 1,
            "desc": f"{slurm.cluster}: {'/'.join(steps)}, {len(slurm.jobs)} jobs, "
                    f"{len(led.files)} results, {total} samples, misfortunes "
                    f"{[v['kind'] for v in victims.values() if v['kind']]}"}
