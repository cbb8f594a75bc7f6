"""C17 - artificial systems: generated models are what was asked for, a family belongs together."""
import copy
import random
from .common import *
from .c05 import parse, normal, equal, from_enum, disturb, settle
from .c13 import Rotation, version
from sim import julia as J

ID = "C17"
MAX_STEPS = 60000
K = models
DEFAULT = {"frequency_range": [0.02, 0.04], "energy_range": [0.0, 2.0], "linear_scaling": 0.04,
           "numStates": 2, "numModes": 3, "diagonal": False}


def scenario(w, c):
    w.p_switch = c.pick([0.2, 0.5, 0.05])
    w.hosts = c.pick([1, 1, 2, 3])
    return c.pick([generate, generate, family])(w, c)


def request(c):
    """parameters of a generated system, some left to their defaults"""
    p = {}
    lo = c.pick([0.02, 0.1, 0.14, c.real(0.005, 0.5)])
    if c.chance(75):
        p["frequency_range"] = c.pick([(lo, lo + 0.3), [lo, lo * 1.5], [lo, lo]])
    e = c.pick([0.0, 10.3, 14.0, -3.0, c.real(-5, 20)])
    if c.chance(75):
        p["energy_range"] = [e, e + c.pick([0.6, 0.8, 2.0, 1e-3, 0.0])]
    if c.chance(75):
        p["linear_scaling"] = c.pick([0.04, 0.02, 0.5, 1e-4, 0.0])
    if c.chance(80):
        p["numStates"] = c.pick([1, 2, 3, 4, 7, 12])
    if c.chance(80):
        p["numModes"] = c.pick([1, 2, 3, 6, 12])
    if c.chance(35):
        p["diagonal"] = c.chance(60)
    if c.chance(20):
        p["quadratic_scaling"] = 0.08
    if c.chance(20):
        p["nonadiabatic"] = False
    return p


def full(p):
    return {**DEFAULT, **(p or {})}


def lower(a):
    """the independent entries of symmetric matrices, one row for each matrix"""
    i, j = np.tril_indices(a.shape[-1])
    return a[..., i, j].reshape(-1, len(i))


def spread(values, lo, hi, what):
    """a sample of a uniform distribution on [lo, hi]"""
    need(np.all((values >= lo - 1e-12 * abs(lo)) & (values <= hi + 1e-12 * abs(hi))),
         "out-of-range", f"{what} {values.min()}..{values.max()} not in [{lo}, {hi}]")
    if hi - lo < 1e-9:
        return
    need(len(np.unique(values)) == values.size, "repeated-values",
         f"{values.size - len(np.unique(values))} of {values.size} {what} are repeated")
    if values.size >= 60:
        x = (values - lo) / (hi - lo)
        need(x.min() < 0.5 < x.max() and (x < 0.3).any() and (x > 0.7).any(), "one-sided-values",
             f"the {values.size} {what} cover {x.min():.2f}..{x.max():.2f} of their range only")


def judge(m, p):
    """does a generated model (in memory form) meet the request?"""
    A, N, diagonal = p["numStates"], p["numModes"], p["diagonal"]
    VMK = env.modules.VMK
    need(int(m[VMK.A]) == A and int(m[VMK.N]) == N, "wrong-dimensions",
         f"{m[VMK.A]} states and {m[VMK.N]} modes instead of {A} and {N}")
    tail = (A,) if diagonal else (A, A)
    for i, k in enumerate((VMK.E, VMK.G1, VMK.G2, VMK.G3, VMK.G4)):
        if k in m:
            need(m[k].shape == (N,) * i + tail, "wrong-dimensions", f"{k} has shape {m[k].shape}")
            need(np.all(np.isfinite(m[k])), "not-finite", f"{k} has values that are no numbers")
            if i > 1:
                need(not np.any(m[k]), "unexpected-terms", f"{k} are not zero")
            if not diagonal:
                need(np.array_equal(m[k], np.swapaxes(m[k], -1, -2)), "not-symmetric",
                     f"{k} are not symmetric in the surfaces")
    lo, hi = p["frequency_range"]
    want = [lo] if N == 1 else [lo + (hi - lo) * i / (N - 1) for i in range(N)]
    need(m[VMK.w].shape == (N,) and np.allclose(m[VMK.w], want, rtol=1e-12, atol=0),
         "wrong-frequencies", f"{m[VMK.w]} instead of {want}")
    spread(m[VMK.E] if diagonal else lower(m[VMK.E]).ravel(), *p["energy_range"], "energies")
    lin = m[VMK.G1] * np.array(want).reshape((N,) + (1,) * len(tail))
    s = p["linear_scaling"]
    lin = lin if diagonal else lower(lin)
    spread(lin.ravel(), -s - 1e-15, s + 1e-15, "linear couplings")
    # the whole of the range is used for every mode (but for one in 10^10 models)
    for j, row in enumerate(lin if s > 1e-9 else ()):
        need(np.abs(row).max() > s * 10 ** (-10.0 / row.size), "one-sided-values",
             f"the {row.size} linear couplings of mode {j + 1} reach {np.abs(row).max()} of {s} only")


def same(a, b):
    return sorted(map(str, a)) == sorted(map(str, b)) and all(
        np.array_equal(a[k], b[k]) for k in a)


def generate(w, c):
    m = env.modules
    VMK = m.VMK
    make = m.vIO.generate_vibronic_model_data
    total = []

    def user(plan):
        last = None
        for p, seed, kind in plan:
            np.random.seed(seed)
            random.seed(seed)
            if kind == "random":
                d = m.vIO.create_random_model()
                e = m.vIO.create_random_diagonal_model()
                for x, diag in ((d, False), (e, True)):
                    A, N = int(x[VMK.A]), int(x[VMK.N])
                    need(2 <= A <= 10 and 2 <= N <= 20, "wrong-dimensions",
                         f"a random model with {A} states and {N} modes")
                    judge(x, {**DEFAULT, "numStates": A, "numModes": N, "diagonal": diag,
                              "linear_scaling": scaling(x)})
                w.point("work")
                np.random.seed(seed)
                random.seed(seed)
                need(same(d, m.vIO.create_random_model()), "not-reproducible",
                     "equal states of the random numbers, different random models")
                total.append("random")
                continue
            given = copy.deepcopy(p)
            d = make() if p is None else make(given)
            need(given == p, "altered-request", f"{p} became {given}")
            q = full(p)
            judge(d, q)
            state = np.random.get_state()
            w.point("work")
            e = make() if p is None else make(given)
            judge(e, q)
            if q["linear_scaling"] > 0:
                need(not np.array_equal(d[VMK.G1], e[VMK.G1]), "repeated-values",
                     "two models that were generated in a row have the same couplings")
            if last is not None:
                # whatever happens to a model does not change those that are made later
                for v in last.values():
                    if isinstance(v, np.ndarray):
                        v.fill(7.0)
            np.random.seed(seed)
            again = make(copy.deepcopy(q))
            need(same(d, again), "not-reproducible", "equal states of the random numbers and "
                 f"equal parameters {q}, different models")
            need(all(np.array_equal(x, y) for x, y in zip(state, np.random.get_state())),
                 "not-reproducible", "the random numbers drawn differ")
            np.random.seed(seed)
            other = make({**q, "diagonal": not q["diagonal"]})
            c_m, d_m = (other, d) if q["diagonal"] else (d, other)
            judge(other, {**q, "diagonal": not q["diagonal"]})
            for k in (VMK.E, VMK.G1):
                need(np.array_equal(np.diagonal(c_m[k], axis1=-2, axis2=-1), d_m[k]),
                     "wrong-diagonal", f"{k} of the diagonal model are not the diagonal of "
                     "those of the coupled model")
            last = e
            if kind == "store":
                path = w.path("store", f"{w.current_task().proc.uid}_{seed}.json")
                save, load = ((m.vIO.save_diagonal_model_to_JSON, m.vIO.load_diagonal_model_from_JSON)
                              if q["diagonal"] else
                              (m.vIO.save_model_to_JSON, m.vIO.load_model_from_JSON))
                save(path, d)
                need(same({k: v for k, v in d.items() if np.any(v) or k == VMK.E}, {
                    k: v for k, v in load(path).items() if np.any(v) or k == VMK.E}),
                    "altered-model", "a generated model does not read back as it was")
                load(path, e)
                need(same(d, e), "altered-model", "a model that is loaded in place of a generated "
                     "one is not what was stored")
            total.append(f"{q['numStates']}x{q['numModes']}{'d' if q['diagonal'] else ''}")

    def scaling(x):
        # the scaling is drawn as well: only its range is known
        k = np.abs(x[VMK.G1]) * x[VMK.w].reshape((-1,) + (1,) * (x[VMK.G1].ndim - 1))
        need(k.max() <= 0.06 * (1 + 1e-12), "out-of-range", f"a random model has couplings of {k.max()}")
        return max(0.02, k.max())
    os.makedirs(w.path("store"))
    tasks = []
    for k in range(c.integer(1, 3)):
        plan = [(request(c) if c.chance(90) else None, c.integer(0, 10 ** 6),
                 c.pick(["plain", "plain", "store", "random"])) for _ in range(c.integer(1, 4))]
        tasks.append(w.spawn(f"user{k}", lambda plan=plan: user(plan)))
    w.run()
    for t in tasks:
        w.check_task(t, "generating artificial systems")
    return {"nontrivial": len(total) > 1, "desc": "generated " + " ".join(total)}


# --------------------------------------------------------------------------
def family(w, c):
    """the steps by which the artificial systems are set up, interrupted and repeated"""
    m = env.modules
    VMK = m.VMK
    jl = J.Julia(w)
    jl.max_time = c.pick([0, 60, 2000])
    root = w.path("work", "systems")
    os.makedirs(root)
    extra = c.integer(0, 2)

    def iterate(text):
        """what the decomposition would store: more oscillators, a function of the model"""
        d = K.from_text(text)
        A, N = d[K.K_A], d[K.K_N]
        k = [a % A for a in range(A + extra)]
        out = {K.K_N: N, K.K_A: A + extra, K.K_W: d[K.K_W],
               K.K_E: np.diag(d[K.K_E])[k] + np.arange(A + extra) * 0.01,
               K.K_G1: np.diagonal(d[K.K_G1], axis1=1, axis2=2)[:, k] * np.linspace(
                   1, 0.7, A + extra)}
        return K.to_text(out)
    jl.iter_model = iterate
    systems = []
    for k in range(c.integer(1, 2)):
        s = {"D": 11 + 10 * k + c.integer(0, 2), "A": c.pick([2, 3, 4]), "N": c.integer(1, 4),
             "p": c.pick([0.05, 0.25, 0.5, 0.75, 1.0]), "seed": c.integer(0, 10 ** 6),
             "e": c.pick([0.0, 10.3]), "new": c.chance(30)}
        s["root"] = root
        s["data"] = f"{root}/data_set_{s['D']}/"
        systems.append(s)
    inputs = {}

    def path(s, r=None):
        return s["data"] + ("parameters/coupled_model.json" if r is None else
                            f"rho_{r}/parameters/sampling_model.json")

    def setup(s):
        FS = m.fs.FileStructure(root, s["D"], 0)
        source = w.path("inputs", f"{s['D']}.json")
        np.random.seed(s["seed"])
        model = m.vIO.generate_vibronic_model_data({
            "frequency_range": [0.1, 0.39], "energy_range": [s["e"], s["e"] + 0.6],
            "numStates": s["A"], "numModes": s["N"]})
        off = ~np.eye(s["A"], dtype=bool)
        if s["diagonal"]:
            model[VMK.E][off] = 0.0
            model[VMK.G1][:, off] = 0.0
        m.vIO.save_model_to_JSON(source, model)
        inputs[s["D"]] = read_text(source)
        FS.change_rho(0)
        m.vIO.save_model_to_JSON(FS.path_vib_model, m.vIO.load_model_from_JSON(source))
        if not s["new"] and os.path.isfile(FS.path_ortho_mat):
            m.vIO.create_fake_coupled_model(FS, transformation_matrix="re-use")
        else:
            m.vIO.create_fake_coupled_model(FS, tuning_parameter=s["p"])
        m.vIO.create_basic_diagonal_model(FS)
        FS.change_rho(1)
        m.vIO.remove_coupling_from_model(FS.path_orig_model, FS.path_rho_model)
        m.jw.prepare_julia()
        m.jw.iterate_method(FS, n_iterations=s["n"])
        for r in (2, 3, 4):
            FS.change_rho(r)
            it = m.vIO.load_diagonal_model_from_JSON(FS.path_iter_model)
            m.vIO.save_diagonal_model_to_JSON(FS.path_rho_model, it)
            if r == 3:
                it[VMK.E] = m.vIO.simple_single_point_energy_calculation(FS, FS.path_iter_model)
                m.vIO.save_diagonal_model_to_JSON(FS.path_rho_model, it)
            elif r == 4:
                m.vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)

    def check(s):
        D, A, N = s["D"], s["A"], s["N"]
        vib = parse(read_text(path(s)), False)
        orig = parse(read_text(s["data"] + "parameters/original_coupled_model.json"), False)
        given = parse(inputs[D], False)
        need(equal(orig, given), "wrong-family", f"system {D}: the original model is not the input")
        U = Rotation.of(A)
        got = np.load(REAL["open"](s["data"] + "parameters/orthogonal_matrix.npy", "rb"))
        seq = float(np.linalg.norm(got - np.eye(A)))
        need(np.allclose(got, U.matrix(U.x_of(seq)), atol=1e-6), "wrong-family",
             f"system {D}: the matrix is no rotation of the expected kind")
        table = version(read_text(f"{env.REPO}/pibronic/vibronic/orthonormal/sequence_{A}.data"))
        need(abs(seq - s["p"] * table["max"]) <= table["gap"] + 1e-5, "wrong-family",
             f"system {D}: the matrix lies {seq} from the identity, parameter {s['p']}")
        for k in (K.K_E, K.K_G1):
            want = np.einsum("ij,...jk,lk->...il", got, given[k], got)
            need(np.allclose(vib[k], want, rtol=1e-9, atol=1e-11), "wrong-family",
                 f"system {D}: the {k} of the coupled model are not the transformed ones")
        need(np.array_equal(vib[K.K_W], given[K.K_W]), "wrong-family", "the frequencies changed")

        def diag(x):
            return {k: np.diagonal(v, axis1=-2, axis2=-1) if isinstance(v, np.ndarray) and v.ndim > 1
                    else v for k, v in x.items()}
        it = parse(iterate(read_text(path(s))), True)
        low = dict(it)
        low[K.K_E] = np.zeros(A + extra)
        shift = 0.5 * np.sum(it[K.K_G1] ** 2 / it[K.K_W][:, None], axis=0)
        for b in range(A + extra):
            q = -it[K.K_G1][:, b] / it[K.K_W]
            H = vib[K.K_E] + 0.5 * np.sum(vib[K.K_W] * q * q) * np.eye(A) + np.tensordot(
                q, vib[K.K_G1], 1)
            low[K.K_E][b] = np.linalg.eigvalsh(H)[0]
        weights = dict(low)
        weights[K.K_E] = low[K.K_E] + shift
        for r, want, what in ((0, diag(vib), "the diagonal of the coupled model"),
                              (1, diag(orig), "the diagonal of the original model"),
                              (2, it, "the iterated model"),
                              (3, low, "the iterated model with the energies of the minima"),
                              (4, weights, "the iterated model with recalculated energies")):
            have = parse(read_text(path(s, r)), True)
            need(have is not None and equal(have, want, exact=r < 3), "wrong-family",
                 f"system {D}: sampling model {r} is not {what}")
        need(parse(read_text(s["data"] + "parameters/harmonic_model.json"), True) is not None and
             equal(parse(read_text(s["data"] + "parameters/harmonic_model.json"), True), diag(vib)),
             "wrong-family", f"system {D}: the harmonic model is not the diagonal of the coupled one")
        calls = [(o.get("--max-iter"), ok) for script, o, text, ok in jl.calls
                 if o.get("--conf") == path(s)]
        need(calls and all(x == (str(s["n"]), True) for x in calls), "wrong-command",
             f"system {D}: the decomposition ran with {calls}, asked for {s['n']} iterations")
    os.makedirs(w.path("inputs"))
    tasks = []
    for s in systems:
        s["n"] = c.pick([50, 10, 1])
        s["diagonal"] = c.chance(60)
        t = w.spawn(f"setup{s['D']}", lambda s=s: setup(s))
        s["kind"] = disturb(c, t, 60)
        tasks.append(t)
    w.run()
    for s, t in zip(systems, tasks):
        if settle(w, t, s["kind"], "setting up a system"):
            check(s)
            w.probe("set_up_at_once")
    for s in systems:
        if c.chance(50):            # another system of that number: nothing old may survive
            s["seed"] += 1
            s["e"] = c.pick([0.0, 10.3])
            if c.chance(50):
                s["p"], s["new"] = c.pick([0.05, 0.25, 0.5, 1.0]), True
            w.probe("set_up_anew")
    again = [w.spawn(f"again{s['D']}", lambda s=s: setup(s)) for s in systems]
    w.run()
    for s, t in zip(systems, again):
        w.check_task(t, "setting up a system once faults have ended")
        check(s)
    return {"nontrivial": True, "desc": "set up " + " ".join(
        f"D{s['D']}({s['A']}x{s['N']}, {s['p']}, {s['kind']})" for s in systems)}
