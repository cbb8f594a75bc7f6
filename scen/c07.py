"""C07 - the electronic structure workflow: steps in order, each once, resumed safely."""
import hashlib
import signal

from .common import *
from sim.slurm import Slurm, RUNNING, TERMINAL

ID = "C07"
MAX_STEPS = 120000
STEPS = ["OPT", "NIP", "VIB", "IPEOMCC", "PREPVIB", "VIBRON"]
SCRIPT = "/home/ngraymon/chem740/work_dir/submit_template"
NAMES = ["water", "ch2o", "ch2o_b", "COMPLETED", "FAILED_x", "m_opt", "h2o_vib", "HEFF"]
FINAL = "  The ACES2 program has completed successfully in      3 seconds"
SUFFIX = {"OPT": "_opt", "NIP": "_hartree_fock_nip", "VIB": "_vib", "IPEOMCC": "_eomcc_ip_",
          "PREPVIB": "_prepvib", "VIBRON": "_vibron"}


def number(*parts):
    """a value which only those parts give"""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).hexdigest()
    return int(h[:8], 16) / 16 ** 8


class Molecule:
    def __init__(self, c, k, root, name):
        self.k, self.name, self.dir = k, name, root
        self.theory = c.pick(["MBPT(2)", "CCSD", "CCSD(T)"])
        self.basis = c.pick(["TZ2P", "DZP"])
        self.kind = c.pick(["internal", "cartesian"])
        n = c.integer(2, 4) if not c.chance(15) else c.integer(5, 13)
        atoms = (["O", "H", "H", "C"] * 4)[:n]
        if self.kind == "internal":
            keys = [f"R{i}" for i in range(1, n)] + [f"A{i}" for i in range(2, n)]
            rel = [f"molecule_{k}", atoms[0]]
            for i in range(1, n):
                rel.append(f"{atoms[i]} 1 R{i}*" + (f" 2 A{i}*" if i > 1 else ""))
            self.rel = rel
            self.first = {x: f"{0.9 + number(k, x, 'start'):.6f}" for x in keys}
            self.zmat = "\n".join(rel) + "\n\n" + "".join(
                f"{x}={v}\n" for x, v in self.first.items()) + c.pick(["", "\n", "\n\n"])
        else:
            # lines above the atoms: usually one, a title
            self.title = [f"molecule_{k}", "second_line", "3"][:c.pick([1, 1, 1, 0, 2, 3])]
            self.atoms = atoms
            self.first = [[f"{number(k, i, j, 'start'):.5f}" for j in range(3)]
                          for i in range(n)]
            self.zmat = "".join(x + "\n" for x in self.title) + "".join(
                f"{a} {' '.join(v)}\n" for a, v in zip(atoms, self.first)) + c.pick(["", "\n"])
        lines = [("theory", self.theory), ("basis", self.basis), ("calculation", "IP")]
        self.drop = c.pick([0] * 6 + [1, 2, 9])
        if self.drop:
            lines.append(("DROPMO", f"DROPMO=1-{self.drop}" if self.drop > 1 else "DROPMO=1"))
        self.flawed = c.chance(8)     # a parameter is missing or not supported
        if self.flawed:
            i = c.integer(0, 2)
            lines[i:i + 1] = c.pick([[], [(lines[i][0], "UHF?")]])
        lines = c.shuffled(lines)
        text = c.pick(["", "# parameters\n", "\n"])
        for a, b in lines:
            text += f"{a}\n{b}\n" + c.pick(["", "\n", "# next\n"])
        write_text(f"{root}/{name}_params.txt", text)
        write_text(f"{root}/{name}_zmat.txt", self.zmat)
        self.orbitals = c.integer(4, 9) if c.chance(80) else c.integer(10, 14)
        self.wish = c.pick([None, None, 1, 2, 3, 5])       # the number of states the user wants
        self.sane = c.integer(0 if c.chance(6) else 1, 5)  # up to here the states are IP states
        self.plans = []
        self.run = None
        self.finished = False
        self.job = None
        self.torn = False
        self.guess = None

    # ---------------------------------------------------------------- what chemistry gives
    def optimised(self):
        if self.kind == "internal":
            return {x: f"{0.9 + number(self.k, x, self.theory, self.basis):.6f}"
                    for x in self.first}
        return [[f"{number(self.k, i, j, self.theory, self.basis):.5f}" for j in range(3)]
                for i in range(len(self.atoms))]

    def geometry(self, opt):
        """the words of the coordinate part of an input file"""
        g = self.first if opt else self.optimised()
        if self.kind == "internal":
            rel = [x if opt else x.replace("*", "") for x in self.rel]
            return " ".join(rel).split() + sorted(f"{a}={b}" for a, b in g.items())
        return self.title + [w for a, v in zip(self.atoms, g) for w in [a] + v]

    def energies(self):
        ev = sorted(-500.0 * number(self.k, self.basis, i, "orbital") - 5
                    for i in range(self.orbitals))
        return [float(f"{x:.4f}") for x in ev]

    def best_guess(self):
        """the orbitals above the biggest relative gap, the dropped and the lowest left aside"""
        ev = self.energies()
        r = {ev[i] / ev[i + 1]: i for i in range(len(ev) - 2, self.drop, -1)}
        return len(ev) - 1 - r[max(r)] if r else None

    def stamp(self, nip):
        return f"{self.name}/{self.k}/{self.theory}/{self.basis}/{nip}"

    def heff(self, what, nip):
        return "".join(f"  HEFF_IP2 {i} {what} {self.stamp(nip)} {number(what, nip, i):.8f}\n"
                       for i in range(3))

    def state(self):
        """-> (number of steps recorded, recorded as finished, torn)"""
        try:
            text = read_text(f"{self.dir}/execution_state.txt")
        except FileNotFoundError:
            return 0, False, False
        lines = [x.strip() for x in text.split("\n") if x.strip()]
        torn = bool(text) and not text.endswith("\n")
        if not lines:
            return 0, False, torn
        if lines[-1] == "FINISHED":
            return 6, True, torn
        if lines[-1] in STEPS:
            return STEPS.index(lines[-1]) + 1, False, torn
        return 0, False, True


class Run:
    """one attempt at one molecule"""

    def __init__(self, mol, proc, start, chosen):
        self.mol, self.proc = mol, proc
        self.start = start            # the steps it may begin with
        self.pos = None               # the step it has to submit next
        self.nip = None
        self.bad = None
        self.jobs = []
        self.rejected = False
        self.chosen = chosen


def scenario(w, c):
    m = env.modules
    sl = Slurm(w, cluster=c.pick(["nlogn", "feynman"]))
    sl.scripts[SCRIPT] = "#!/bin/bash\ntrue\n"
    sl.next_id = c.pick([1, 99, 4101, 12345678])
    sl.autostart = False
    w.p_switch = c.pick([0.1, 0.3])
    problems = []

    def need(cond, kind, message):
        if not cond:
            problems.append(Violation(kind, message))
            raise problems[-1]

    # ---------------------------------------------------------------- molecules
    mols = []
    count = c.pick([1, 1, 2, 2, 3])
    same = c.chance(30)
    first = c.pick(NAMES)
    for k in range(count):
        name = first if same else c.pick(NAMES)
        mols.append(Molecule(c, k, w.path("work", f"data_set_{201 + k}", "electronic_structure"),
                             name))
    recorded = {}

    def observe(world, label):
        """what was recorded as completed stays recorded"""
        for mol in mols:
            path = f"{mol.dir}/execution_state.txt"
            try:
                st = REAL["os.stat"](path)
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                old = recorded.get(path, (None, []))
                if old[0] == key:
                    continue
                lines = read_text(path).split("\n")[:-1]
            except FileNotFoundError:
                key, lines = None, []
                old = recorded.get(path, (None, []))
            need(lines[:len(old[1])] == old[1], "record-lost", f"molecule {mol.k}: the state file "
                 f"had {old[1]} and has {lines} (at {label})")
            recorded[path] = (key, lines)
    w.observers.append(observe)
    for mol in mols:
        if mol.wish is None and mol.best_guess() is None:
            mol.wish = 2
    trouble = c.pick([0, 25, 25, 50])
    for mol in mols:
        for _ in range(12):
            good = not c.chance(trouble)
            mol.plans.append({
                "wait": c.pick([0.0, 1.0, 6.0, 40.0, 900.0]),
                "length": c.pick([0.0, 2.0, 11.0, 60.0, 200.0]),
                "how": "ok" if good else c.pick(["FAILED", "FAILED", "TIMEOUT", "CANCELLED",
                                                 "NODE_FAIL", "OUT_OF_MEMORY", "program",
                                                 "program", "program", "program"]),
                "variant": c.integer(0, 6), "full": c.chance(40),
                "signal": c.pick(["end", "end", "early", "none"])})

    by_pid = {}

    # ---------------------------------------------------------------- submissions
    def step_of(job):
        name = job.export.get("JOB", "")
        for mol in mols:
            if job.workdir is None or os.path.normpath(job.workdir) != mol.dir:
                continue
            for s in STEPS:
                pre = mol.name + SUFFIX[s]
                if s == "IPEOMCC":
                    if name.startswith(pre) and name[len(pre):].isdigit():
                        return mol, s, int(name[len(pre):])
                elif name == pre:
                    return mol, s, None
        return None, None, None

    def sbatch(argv, env=None, cwd=None):
        before = set(sl.jobs)
        t = w.current_task()
        mine = [x.run for x in mols if x.run is not None and x.run.proc is t.proc]
        res = sl.sbatch(argv, env, cwd)
        new = set(sl.jobs) - before
        if not new:
            for r in mine:
                r.rejected = True
            return res
        job = sl.jobs[new.pop()]
        mol, step, nip = step_of(job)
        need(mol is not None, "foreign-job", f"a job {job.export.get('JOB')!r} in {job.workdir!r} "
                                             f"belongs to no step of any molecule")
        run = mol.run
        what = f"{step} of molecule {mol.k}"
        need(not mol.flawed, "flaw-hidden", f"{what} was submitted although the parameters of the "
                                            f"molecule are incomplete or wrong")
        need(run is not None and run.proc is t.proc, "foreign-job",
             f"{what} was submitted by the workflow of another molecule")
        need(job.export.get("PARENT_PID") == str(t.proc.pid), "foreign-job",
             f"{what} will notify process {job.export.get('PARENT_PID')} and not its parent")
        need(run.bad is None, "went-on", f"{what} was submitted although {run.bad}")
        need(mol.job is None or mol.job.state in TERMINAL, "overtaking",
             f"{what} was submitted while the job of the preceding step is "
             f"{mol.job.state if mol.job else ''}")
        i = STEPS.index(step)
        if run.pos is None:
            need(i in run.start, "wrong-step", f"{what} was submitted first, but the first step "
                 f"which was not completed is {[(STEPS + ['none'])[x] for x in run.start]}")
        else:
            need(i == run.pos, "wrong-step",
                 f"{what} was submitted where {(STEPS + ['nothing'])[run.pos]} had to follow")
            if run.nip_retry is None:
                done, _, torn = mol.state()
                need(done == i or torn or mol.torn, "not-recorded",
                     f"{what} was submitted while the state file says {done} steps are completed")
        if step == "IPEOMCC":
            want = run.nip if run.nip_retry is None else run.nip_retry
            need(nip == want, "wrong-nip", f"{what} was submitted for {nip} states and not {want}")
        run.pos, run.ip = i, nip
        run.nip_retry = None
        mol.job = job
        run.jobs.append(job.id)
        job.mol, job.step, job.run, job.nip = mol, step, run, nip
        job.plan = mol.plans.pop(0) if mol.plans else {
            "wait": 1.0, "length": 3.0, "how": "ok", "variant": 0, "full": False, "signal": "end"}
        w.at(job.plan["wait"], lambda: sl.start(job))
        return res

    w.commands["sbatch"] = sbatch

    # ---------------------------------------------------------------- what a job does
    def launch(job):
        job.proc = w.proc(f"job{job.id}")
        tasks.append(w.spawn(job.proc.name, lambda: work(job), proc=job.proc))

    def notify(job):
        p = by_pid.get(job.export["PARENT_PID"])
        if p is not None:
            w.send_signal(p, signal.SIGUSR1)

    def work(job):
        mol, step, plan = job.mol, job.step, job.plan
        stem = f"{mol.dir}/{job.export['JOB']}"
        nip = check_input(job, stem + ".in")
        for x in extras(step):
            p = f"{mol.dir}/{mol.name}{x}" if x[0] == "_" else f"{mol.dir}/{x}"
            if os.path.exists(p):
                os.unlink(p)
        text = output(mol, step, nip)
        how, v = plan["how"], plan["variant"]
        out = stem + ".out0"
        if plan["signal"] == "early":
            notify(job)
        with open(out, "w") as f:
            f.write(text[:len(text) // 3])
            f.flush()
            w.sleep(plan["length"])
            if job.state != RUNNING:
                return
            if how == "ok" or (how != "program" and plan["full"]):
                f.write(text[len(text) // 3:])
        slurm_text = "starting\nFinished\n"
        make = list(extras(step))
        if how == "program":
            w.fired("program_failed")
            if step == "PREPVIB":
                # the program dies before it writes everything or is killed by the node
                if v < 3:
                    make.pop(v)
                elif v == 6:
                    # the force constants got lost
                    os.replace(f"{mol.dir}/fcmfinal", f"{mol.dir}/fcmfinal.backup")
                    w.fired("force_constants_lost")
                else:
                    slurm_text = ["starting\nSIGSEGV, segmentation fault\nFinished\n",
                                  "starting\nKilled\nExceeded step memory limit\nFinished\n",
                                  "starting\nline 7: 123 Killed\nFinished\n"][v - 3]
            elif v == 0:
                os.unlink(out)
                slurm_text = "starting\nno input\nFinished\n"
            elif v == 1:
                with open(out, "w"):
                    pass
            elif v == 2:
                slurm_text = "starting\nSIGSEGV, segmentation fault\nFinished\n"
            elif v == 3:
                # a restarted program: an older success, then a failure
                with open(out, "a") as f:
                    f.write(text[len(text) // 3:] + "restart\n" + "diverging\n" * 25)
            elif v == 4:
                with open(out, "a") as f:
                    f.write("*** the calculation diverged ***\n")
                slurm_text = "starting\nKilled\nFinished\n"
            make = make[:1] if step != "PREPVIB" else make
        elif how != "ok":
            make = make[:plan["variant"] % (len(make) + 1)]
            slurm_text = c_text(how)
        for x in make:
            p = f"{mol.dir}/{mol.name}{x}" if x[0] == "_" else f"{mol.dir}/{x}"
            with open(p, "w") as f:
                f.write(extra_text(mol, x, nip))
        with open(job.output, "w") as f:
            f.write(slurm_text)
        if plan["signal"] == "end":
            notify(job)
            w.point("job-exit")
        if job.state != RUNNING:
            return
        settle(job, "COMPLETED" if how in ("ok", "program") else how)

    def c_text(how):
        return {"TIMEOUT": "starting\nCANCELLED DUE TO TIME LIMIT\n",
                "OUT_OF_MEMORY": "starting\nKilled\nExceeded step memory limit\n"}.get(
                    how, "starting\nerror\n")

    def settle(job, state):
        """the end of a job, and what has to happen next"""
        run, mol = job.run, job.mol
        if state == "COMPLETED" and job.plan["how"] == "ok":
            if job.step == "IPEOMCC" and job.nip > mol.sane:
                run.nip_retry = job.nip - 1
                if run.nip_retry == 0:
                    run.bad = "there is no state left"
                w.fired("nip_reduced")
            else:
                if job.step == "IPEOMCC":
                    run.nip_final = job.nip
                run.pos += 1
        else:
            run.bad = f"job {job.id} ({job.step}) ended {state} with the program " \
                      f"{'failing' if job.plan['how'] == 'program' else 'stopped'}"
            w.fired("job_bad")
        sl.finish(job, state, 0 if state == "COMPLETED" else 1)

    def extras(step):
        return {"VIB": ["fcmfinal"], "PREPVIB": ["_prepvib.pntheff", "_prepvib.vibronic_coupling",
                                                 "_prepvib.vibron_input"]}.get(step, [])

    def extra_text(mol, x, nip):
        if x == "fcmfinal":
            return f"force constants of {mol.stamp('')}\n"
        if x.endswith("vibron_input"):
            return f"input of vibron {mol.stamp(nip)}\nstates xxx    end\nmore {number(nip):.6f}\n"
        what = x.split(".")[1]
        return ("" if mol.k % 2 else "to be removed\nHEFF_0 old\n") + mol.heff(what, nip) + \
            f"tail of {what}\n"

    def read_in(job, path):
        try:
            return read_text(path)
        except FileNotFoundError:
            need(False, "no-input", f"{job.step} of molecule {job.mol.k} started without "
                                    f"{os.path.basename(path)}")

    def check_input(job, path):
        """the program reads its input: it must be what the completed steps determine"""
        mol, step = job.mol, job.step
        what = f"input of {step} of molecule {mol.k}"
        text = read_in(job, path)
        run = job.run
        if step == "VIBRON":
            nip = run.final(mol)
            want = f"input of vibron {mol.stamp(nip)}\nstates {nip:>6d} end\n" \
                   f"more {number(nip):.6f}\n"
            need(text == want, "wrong-input", f"{what} is {text!r} and not {want!r}")
            for f, src in (("PNTHEFF", "pntheff"), ("cp.auto", "vibronic_coupling")):
                got = read_in(job, f"{mol.dir}/{f}")
                want = mol.heff(src, nip) + f"tail of {src}\n"
                need(got == want, "wrong-input", f"{f} for {step} of molecule {mol.k} is "
                                                 f"{got!r} and not {want!r}")
            return nip
        head, _, tail = text.partition("*ACES2(")
        body, _, rest = tail.partition("\n\t)")
        words = head.split()
        if mol.kind == "internal":
            words = [x for x in words if "=" not in x] + sorted(x for x in words if "=" in x)
        want = mol.geometry(step == "OPT")
        need(words == want, "wrong-geometry", f"{what} has the geometry {words} and not {want}")
        got = dict(x.split("=") for x in "".join(body.split()).split(",") if x)
        need(got.pop("MEMORY_SIZE", "").endswith("GB"), "wrong-input", f"{what} sets no memory")
        want = {"BASIS": mol.basis, "CALC": "SCF" if step == "NIP" else mol.theory}
        if step == "OPT" and mol.kind == "cartesian":
            want["GEOM_OPT"] = "RIC"
        if step == "VIB":
            want["VIB"] = "FINDIF"
        if step in ("IPEOMCC", "PREPVIB"):
            want["IP_CALC"] = "IP_EOMCC"
        if step == "PREPVIB":
            want.update(PREP_VIBRON="ON", GRID_VIBRON="3", CC_CONV="10", SCF_CONV="10",
                        ESTATE_TOL="10")
        need(got == want, "wrong-input", f"{what} asks for {got} and not {want}")
        more = any(x.startswith("*") for x in rest.split())
        need(text.count("(") == text.count(")") and (not more or rest.split()[-1] == "*end"),
             "wrong-input", f"{what} has a section which does not end: {text!r}")
        nip = None
        for x in rest.split():
            if x.startswith("nip="):
                nip = int(x[4:])
        if step == "IPEOMCC":
            need(nip == job.nip, "wrong-nip", f"{what} asks for {nip} states, its name for "
                                              f"{job.nip}")
        elif step == "PREPVIB":
            need(nip == run.final(mol), "wrong-nip", f"{what} asks for {nip} states and not "
                                                     f"{run.final(mol)}")
            need(os.path.exists(f"{mol.dir}/fcmfinal"), "no-input", "no force constants")
        else:
            need(nip is None, "wrong-input", f"{what} asks for {nip} states")
        return nip

    def output(mol, step, nip):
        text = f" program start {mol.stamp(nip)}\n" + "iteration\n" * 5
        if step == "OPT":
            g = mol.optimised()
            if mol.kind == "internal":
                text += " Summary of optimized internal coordinates\n (Angstroms and degrees)\n"
                text += "".join(f"   {a} =  {b}\n" for a, b in g.items())
            else:
                text += " Summary of optimized Cartesian coordinates (Ang)\n ----------\n"
                text += "".join(f"  {a}   {'  '.join(v)} \n" for a, v in zip(mol.atoms, g))
            text += "\n Frequencies of the updated Hessian at convergence\n 1 2 3\n"
        elif step == "NIP":
            text += "  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 eV)\n\n" \
                    "  MO #   E(hartree)   E(eV)   FULLSYM\n  ----   -----  -----\n"
            for i, e in enumerate(mol.energies()):
                text += f"   {i + 1}  {i + 1}  {e / 27.2114:.6f}  {e:.4f}  A1  A1 (1)\n"
            text += "  " + "+" * 43 + "\n  9 9 1.0 27.2 A1\n"
        elif step == "IPEOMCC":
            text += "  Summary of ionization-potential eom-cc calculation\n" \
                    "  ------------------------\n\n  Root Sym E(au) E(eV) %singles Total\n" \
                    "  ------------------------\n"
            for i in range(nip):
                ok = nip <= mol.sane or i != (mol.k + nip) % nip
                x = [85.01, 93.2, 99.9][i % 3] if ok else [85.0, 84.99, 12.3][nip % 3]
                text += f"  {i + 1}  A1  -0.4{i}  -12.{i}  {x:.2f}  -76.{i}\n"
            text += "  ------------------------\n"
        text += "timing\n" * 14
        if step == "VIBRON":
            return text + " All done in main_vibron\n" + "bye\n" * (mol.k % 3)
        return text + FINAL + "\n" + "bye\n" * (mol.k % 4)

    # ---------------------------------------------------------------- the user
    def user(mol, run):
        said = {"value": None, "junk": 0}

        def answer(prompt):
            number_ = [int(x) for x in prompt.replace("?", " ").split() if x.isdigit()]
            if "guess" in prompt:
                g = number_[0]
                need(g == mol.best_guess(), "wrong-guess", f"the program suggests {g} states, the "
                     f"orbital energies {mol.energies()} suggest {mol.best_guess()}")
                if mol.wish in (None, g):
                    run.nip = g
                    return "y"
                return "no"
            if "acceptable" in prompt:
                need(number_[0] == said["value"], "wrong-nip", f"the user said {said['value']}, "
                                                               f"the program heard {number_[0]}")
                run.nip = said["value"]
                return "yes"
            said["junk"] += 1
            if said["junk"] == 1 and mol.k == 0:
                return "what?"
            if said["junk"] == 2 and mol.k == 0:
                return "-4"
            said["value"] = mol.wish
            return str(said["value"])
        return answer

    def final(run, mol):
        """the number of states which passes the verification"""
        return min(run.nip, mol.sane)

    Run.final = final
    history = []

    def session(plan, p):
        """one process in which workflows run one after the other"""
        for mol, chosen in plan:
            if mol.run is not None and mol.run.proc is not p:
                raise HarnessError("two workflows of one molecule at once")
            if mol.job is not None:      # the user waits for the end of what still runs
                w.block(lambda: gone(mol.job), "the user waits")
            done, fin, torn = mol.state()
            mol.torn = mol.torn or torn
            if done and not torn and w.c.chance(6):     # someone looked at the file in an editor
                with REAL["open"](f"{mol.dir}/execution_state.txt", "a") as f:
                    f.write("\n" * w.c.integer(1, 3))
            if os.path.exists(f"{mol.dir}/fcmfinal.backup"):
                os.replace(f"{mol.dir}/fcmfinal.backup", f"{mol.dir}/fcmfinal")
            start = {done} if chosen is None else {chosen}
            if mol.torn and chosen is None:
                start |= {0}
            run = mol.run = Run(mol, p, sorted(start), chosen)
            run.before = done
            run.nip_retry = None
            p.stdin = user(mol, run)
            run.outcome = "crash"
            history.append(run)
            try:
                job = m.es.VibronExecutionClass(mol.name, mol.dir,
                                                *([] if chosen is None else [chosen + 1]))
                job.calculate_vibronic_model()
                run.outcome = "ok"
            except (Violation, SimCrash, HarnessError):
                raise
            except Exception as e:
                run.outcome, run.why = "error", describe(e)
            check_end(run)
            mol.run = None

    def check_end(run):
        mol = run.mol
        done, fin, torn = mol.state()
        at = run.pos if run.pos is not None else run.start[-1]
        mol.torn = mol.torn or torn
        what = f"molecule {mol.k} ({mol.name})"
        if run.chosen is None or run.jobs:
            need(done <= at or mol.torn or run.chosen is not None and done == run.before, "recorded-early", f"{what}: {done} steps are recorded as "
                 f"completed, but only {at} were ({run.bad})")
        if run.outcome == "ok":
            need(run.bad is None, "failure-hidden", f"{what}: the workflow ended normally "
                                                    f"although {run.bad}")
            need(at == 6, "incomplete", f"{what}: the workflow ended normally after {at} of 6 steps")
            need(not mol.flawed or run.start[-1] == 6, "flaw-hidden",
                 f"{what}: the workflow ran although its parameters are incomplete or wrong")
            if run.jobs:
                need(fin, "not-recorded", f"{what}: the workflow finished, the state file says "
                                          f"{done} steps")
            mol.finished = True
        elif run.outcome == "error":
            faulty = run.proc.faults or run.rejected
            need(run.bad is not None or faulty or mol.flawed, "unexpected-failure",
                 f"{what}: the workflow failed for no reason: {run.why}")

    # ---------------------------------------------------------------- rounds
    tasks = []
    sl.runner = launch
    rounds = c.integer(2, 4)
    faults = c.chance(35)
    sl.reject_p = c.pick([0.0, 0.0, 0.06])
    trace = []
    for r in range(rounds + 3):
        last = r >= rounds
        todo = [x for x in mols if not x.finished]
        if not todo:
            break
        if last:
            sl.reject_p = 0.0
            for mol in mols:
                mol.plans = []
        groups = {}
        procs = c.integer(1, len(todo))
        for mol in c.shuffled(todo):
            again = c.pick([1, 1, 1, 2])
            groups.setdefault(c.integer(0, procs - 1), []).extend([(mol, None)] * again)
        now = []
        for g, plan in sorted(groups.items()):
            p = w.proc(f"user{r}.{g}")
            by_pid[str(p.pid)] = p
            if not last and c.chance(30):
                p.crash_at = c.integer(1, 140)
            elif not last and faults and c.chance(50):
                p.faults = swarm_io(c, ["write_error", "open_error", "read_error", "spawn_error",
                                        "meta_error"], 0.02)
            now.append(w.spawn(p.name, lambda plan=plan, p=p: session(plan, p), proc=p))
        tasks += now
        w.run(until=lambda: all(t.done for t in now))
        finish_round(w, sl, c, mols, problems)
        for t in now:
            ended(t)
        if problems:
            raise problems[0]
        for mol in mols:
            if mol.run is not None:           # its process crashed
                mol.run.outcome = "crash"
                check_end(mol.run)
                mol.run = None
        trace.append("/".join(f"{x.state()[0]}" for x in mols))
        if r == rounds + 2:
            for mol in mols:
                need(mol.finished or mol.sane == 0 or mol.flawed, "no-progress",
                     f"molecule {mol.k} does not finish although nothing fails any more")
    # a finished workflow has nothing left to do; a chosen step is where it starts
    done = [x for x in mols if x.finished]
    if done:
        mol = c.pick(done)
        before = len(sl.jobs)
        p = w.proc("again")
        by_pid[str(p.pid)] = p
        # an interrupted run may have recorded everything but the final state
        t = w.spawn("again", lambda: session([(mol, None)], p), proc=p)
        w.run(until=lambda: t.done)
        ended(t)
        if not mol.torn:
            need(len(sl.jobs) == before, "repeated", f"molecule {mol.k} was finished and "
                                                     f"{len(sl.jobs) - before} steps run again")
        sl.reject_p = 0.0
        mol.plans = []
        if c.chance(30):
            # one that is started again at a chosen step is interrupted: the rest goes on from there
            p1 = w.proc("restart0")
            by_pid[str(p1.pid)] = p1
            p1.crash_at = c.integer(1, 120)
            x = c.integer(0, 5)
            t = w.spawn("restart0", lambda: session([(mol, x)], p1), proc=p1)
            tasks.append(t)
            w.run(until=lambda: t.done)
            finish_round(w, sl, c, mols, problems)
            ended(t)
            if mol.run is not None:
                mol.run.outcome = "crash"
                check_end(mol.run)
                mol.run = None
                w.probe("chosen_restart_interrupted")
            p1 = w.proc("resume0")
            by_pid[str(p1.pid)] = p1
            t = w.spawn("resume0", lambda: session([(mol, None)], p1), proc=p1)
            w.run(until=lambda: t.done)
            ended(t)
            need(mol.state()[0] == 6, "incomplete", f"molecule {mol.k}, restarted at {STEPS[x]} and "
                                               f"interrupted, did not finish")
        if c.chance(40):
            chosen = [c.integer(0, 5) for _ in range(c.pick([1, 1, 2, 3]))]
            p2 = w.proc("restart")
            by_pid[str(p2.pid)] = p2
            t = w.spawn("restart", lambda: session([(mol, x) for x in chosen], p2), proc=p2)
            w.run(until=lambda: t.done)
            ended(t)
            need(mol.state()[1], "incomplete", f"molecule {mol.k} restarted at "
                                               f"{STEPS[chosen[-1]]} did not finish")
    for t in tasks:
        ended(t)
    if problems:
        raise problems[0]
    return {"nontrivial": len(history) > 1,
            "desc": f"{count} molecules, {len(history)} runs, progress " + " ".join(trace)}


def gone(job):
    return job.state in TERMINAL and (job.proc is None or all(t.done for t in job.proc.tasks))


def finish_round(w, sl, c, mols, problems):
    """the jobs of crashed workflows end, or are cancelled, before anybody starts again"""
    live = [x.job for x in mols if x.job is not None and x.job.state not in TERMINAL]
    cancel = c.chance(50)
    for job in live:
        if cancel and job.state == RUNNING:
            sl.cancel(job)
    w.run(until=lambda: all(j.state in TERMINAL for j in live))
    w.run(until=lambda: all(gone(j) for j in live))


def ended(t):
    """sessions and jobs handle what the code under test raises: anything else is a bug here"""
    if failed(t):
        raise HarnessError(f"{t.name}: {describe(t.exc)}") from t.exc
