"""C15 - training data belong together: every stored g and rho is that of the stored R."""
from .common import *

ID = "C15"
MAX_STEPS = 20000


def ended(t):
    e = t.exc
    if isinstance(e, (NameError, UnboundLocalError)) and __name__ in describe(e):
        raise HarnessError(describe(e))
    return failed(t)


class Calc:
    """the training data of one job: what it will look like"""

    def __init__(self, w, c, pr, J):
        self.w, self.pr, self.J = w, pr, J
        self.block, self.blocks = c.integer(1, 4), c.integer(1, 3)
        if c.chance(5):
            self.block, self.blocks = c.pick([(11, 2), (1, 12), (4, 6)])
        self.extra = c.pick([0, 0, 0, 1]) if self.block > 1 else 0
        self.n = self.block * self.blocks
        self.P, self.T = c.pick([3, 4, 5, 8] if c.chance(95) else [16, 33]), c.pick([300.0, 77.5, 1000.0, 300.126])
        self.source = c.pick(["FS", "FS", "json"])
        self.where = pr.data + "results/"
        stem = f"P{self.P:d}_T{self.T:.2f}_J{J:d}_training_data_"
        self.input, self.g = self.where + stem + "input.npz", self.where + stem + "g_output.npz"
        self.ref = models.Reference(pr.vib_full(), pr.rho_full(), self.T, self.P)
        self.verified = set()
        self.name = c.pick([int, str])      # of the environment, or counted

    def __str__(self):
        return (f"data set {self.pr.D}: {self.pr.A} surfaces, {self.pr.N} modes, P={self.P} "
                f"T={self.T} J={self.J}, {self.blocks} blocks of {self.block}"
                f"{' and one more sample' if self.extra else ''}")

    def log_g(self, R):
        return self.ref.log_g(R)


def signature(path):
    try:
        st = REAL["os.stat"](path)
    except OSError:
        return None
    return (st.st_ino, st.st_mtime_ns, st.st_size)


def check_g(what, x, R, g):
    need(g.shape == (len(R),), "wrong-count",
         f"{what}: {g.shape} values of g for {len(R)} sets of coordinates")
    for i in range(len(R)):
        lg, sign, cond = x.log_g(R[i])
        want = sign * np.exp(lg)
        need(close(g[i], want, rel=1e-7 * max(1.0, cond)), "wrong-g",
             f"{what}: g[{i}] is {g[i]!r}, g of the stored coordinates is {want!r}")


def check_pair(w, x, final):
    """what is on the disk for one job"""
    a, b = signature(x.input), signature(x.g)
    if a is None and b is None:
        need(not final, "missing-data", f"{x}: nothing was stored")
        return
    key = (a, b)
    if key in x.verified:
        return
    x.verified.add(key)
    what = str(x)
    inp = out = None
    if a is not None:
        inp = read_npz(x.input)
        need(inp is not None, "partial-file", f"{what}: the file of the coordinates is incomplete")
        R = inp.get("input_R_values")
        need(R is not None and "number_of_samples" in inp, "missing-array",
             f"{what}: the file of the coordinates holds {sorted(inp)}")
        need(R.ndim == 3 and R.shape[1:] == (x.pr.N, x.P), "wrong-shape",
             f"{what}: coordinates of shape {R.shape}")
        need(len(R) == x.n == int(inp["number_of_samples"]), "wrong-count",
             f"{what}: {len(R)} sets of coordinates, labelled {inp['number_of_samples']}, "
             f"{x.n} were generated")
        need(bool(np.isfinite(R).all()), "unfilled-samples", f"{what}: coordinates not finite")
        need(len(np.unique(R)) == R.size, "repeated-numbers",
             f"{what}: the same random number appears more than once")
    if b is not None:
        out = read_npz(x.g)
        need(out is not None, "partial-file", f"{what}: the file of the output is incomplete")
        need("g" in out and "number_of_samples" in out, "missing-array",
             f"{what}: the file of the output holds {sorted(out)}")
        need(int(out["number_of_samples"]) == x.n, "wrong-count",
             f"{what}: output labelled with {out['number_of_samples']} samples, not {x.n}")
        need(inp is not None, "unpaired-output", f"{what}: there is output without coordinates")
        check_g(what, x, inp["input_R_values"], out["g"])
        w.probe("pair_verified")
    else:
        need(not final, "missing-data", f"{what}: there is no output")


def scenario(w, c):
    m = env.modules
    w.p_switch = c.pick([0.3, 0.05])
    w.hosts = c.pick([1, 1, 2, 3])
    calcs = []
    D = c.pick([0, 0, 9, 99])
    for j in range(c.integer(1, 3)):
        pr = Project(w, c, D=D + j, A=c.integer(1, 3) if c.chance(95) else 6,
                     N=c.integer(1, 3) if c.chance(95) else 7, quadratic=c.chance(40),
                     rho_states=None if c.chance(50) else c.integer(1, 4))
        pr.write_models()
        J = c.pick([1, 1, 7, 120])
        for _ in range(c.integer(1, 2)):
            calcs.append(Calc(w, c, pr, J))
            J += c.pick([1, 1, 10, 100, 1000, 1 << 10, 10 ** 5, 1 << 16, 10 ** 6])

    def make(x):
        pr = x.pr
        FS = pr.FS()
        if x.source == "json":
            data = m.engine.BoxData.from_json_string(json.dumps({
                "number_of_samples": x.n + x.extra, "number_of_blocks": x.blocks,
                "number_of_states": pr.A, "number_of_beads": x.P, "number_of_modes": pr.N,
                "temperature": x.T, "block_size": x.block, "delta_beta": models.DELTA_BETA,
                "id_data": pr.D, "id_rho": pr.R, "path_root": pr.root}, separators=(";", ":")))
        else:
            data = m.engine.BoxData.from_FileStructure(FS)
            data.samples, data.blocks, data.block_size = x.n + x.extra, x.blocks, x.block
            data.beads, data.temperature = x.P, x.T
        data.preprocess()
        return FS, data

    def generate(x, data, FS):
        result = m.engine.BoxResult(data=data)
        result.id_job, result.path_root = x.name(x.J), FS.path_vib_results
        m.engine.block_compute_gR_from_raw_samples(data, result)
        return result

    def rho_of(x, data, R, pr, vib_same=True):
        res = m.engine.BoxResult(X=data.samples)
        m.engine.block_compute_rhoR_from_input_samples(data, res, R)
        ref = models.Reference(pr.vib_full(), pr.rho_full(), x.T, x.P)
        for i in range(x.n):
            want = np.exp(ref.log_rho(R[i]))
            need(close(res.scaled_rho[i], want, rel=1e-8), "wrong-rho",
                 f"{x}: rho[{i}] of {pr.rho[models.K_A]} oscillators is "
                 f"{res.scaled_rho[i]!r}, rho of the stored coordinates is {want!r}")
        w.probe("rho_compared")

    # several jobs share a process, or each has its own
    plan = c.shuffled(calcs) if c.chance(50) else list(calcs)
    parts = c.integer(1, min(2, len(plan)))
    groups = [plan[i::parts] for i in range(parts)]
    again = {id(x): c.chance(40) for x in calcs}        # run again under the same id
    order = c.pick(["each", "together"])
    with_rho = {id(x): c.pick(["no", "own", "other", "own", "read"]) for x in calcs}
    others = {}
    for x in calcs:
        if with_rho[id(x)] == "other":
            q = Project(w, c, D=x.pr.D, R=x.pr.R + 5 + x.J, A=x.pr.A, N=x.pr.N,
                        rho_states=c.integer(1, 4), root=os.path.relpath(x.pr.root, w.path()).split(os.sep))
            q.vib = x.pr.vib
            q.rho[models.K_W] = x.pr.vib[models.K_W].copy()
            q.write_models()
            others[id(x)] = q
    done = set()

    def program(group):
        ready = [(x,) + make(x) for x in group] if order == "together" else None
        for x in group:
            FS, data = ([(f, d) for y, f, d in ready if y is x][0] if ready else make(x))
            for turn in range(1 + again[id(x)]):
                result = generate(x, data, FS)
                done.add(id(x))
                how = with_rho[id(x)]
                if how == "no":
                    continue
                d = read_npz(x.input)
                R = d["input_R_values"]
                if how == "other":
                    q = others[id(x)]
                    data.id_rho = q.R
                    data.path_rho_model = q.rho_path
                    data.initialize_models()
                    rho_of(x, data, R, q)
                    w.probe("rho_of_another_model")
                else:
                    if how == "read":
                        _, data = make(x)
                    rho_of(x, data, R, x.pr)

    def observe(world=None, label=""):
        for x in calcs:
            check_pair(w, x, False)
    w.observers.append(observe)
    tasks = []
    for k, g in enumerate(groups):
        t = w.spawn(f"training{k}", lambda g=g: program(g))
        t.proc.out = []
        tasks.append(t)
    victim = None
    if c.chance(60):
        victim = c.pick(tasks)
        if c.chance(60):
            victim.proc.crash_at = c.integer(1, 14 * len(calcs) + 40)
        else:
            victim.proc.faults = swarm_io(c, ["write_error", "short_write", "open_error",
                                              "meta_error"], 0.05, 60)
    w.run()
    io = any(w.faults_fired.get(k) for k in ("write_error", "open_error", "meta_error"))
    broken = []
    for t in tasks:
        if t is victim and isinstance(t.exc, SimCrash):
            broken.append(t)
        elif ended(t):
            need(t is victim and io, "unexpected-failure",
                 f"generating training data: {describe(t.exc)}")
            broken.append(t)
    observe()
    # carry on after the failure: the same jobs again, without faults
    if broken:
        rest = [w.spawn(f"again{k}", lambda g=g: program(g))
                for k, (g, t) in enumerate(zip(groups, tasks)) if t in broken]
        for t in rest:
            t.proc.out = []
        w.run()
        for t in rest:
            w.check_task(t, "generating the training data again")
        w.probe("generated_again_after_failure")
    for x in calcs:
        check_pair(w, x, True)
    # the numbers of two jobs are different
    seen = {}
    for x in calcs:
        for v in np.unique(read_npz(x.input)["input_R_values"]):
            need(v not in seen, "repeated-numbers",
                 f"{x} and {seen.get(v)} hold the same random number")
            seen[v] = x
    return {"nontrivial": len(calcs) > 1 or bool(broken),
            "desc": f"{len(calcs)} jobs in {parts} processes, {sum(x.n for x in calcs)} samples, "
                    f"{len(broken)} interrupted, {order}"}
