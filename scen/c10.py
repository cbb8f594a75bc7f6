"""C10 - a stored sample is what its random numbers, its model and its parameters say."""
from .common import *

ID = "C10"
MAX_STEPS = 20000


def scenario(w, c):
    m = env.modules
    w.p_switch = c.pick([0.3, 0.05])
    nproc = c.pick([1, 1, 2])
    procs = []
    for k in range(nproc):
        calcs = []
        for j in range(c.integer(1, 3)):
            big = c.chance(5)
            A, N = (c.integer(1, 3), c.integer(1, 3)) if not big else \
                c.pick([(4, 2), (2, 9), (6, 5), (1, 12), (9, 1)])
            pr = Project(w, c, D=10 * k + j, A=A, N=N, quadratic=c.chance(40),
                         rho_states=None if c.chance(50) else c.integer(1, 4 if not big else 8))
            block = c.integer(1, 4) if not big else c.pick([1, 3, 11])
            blocks = c.integer(1, 3)
            P, T = c.pick([3, 4, 5, 8] if not big else [4, 12, 25, 64]), c.pick([300.0, 77.5, 1000.0, 20.0])
            regime = c.pick(["", "", "", "", "", "", "far", "high", "stiff"])
            T = extreme(c, pr, regime, P, T)
            pr.write_models()
            calcs.append({
                "pr": pr, "block": block, "blocks": blocks, "P": P, "regime": regime,
                "T": T, "pm": not c.chance(30),
                "extra": c.pick([0, 0, 1]) if block > 1 else 0, "J": 1 + j, "k": j,
                "db": c.pick([models.DELTA_BETA, models.DELTA_BETA, 1.0e-3, 0.05]),
                "source": c.pick(["json", "FS", "direct"])})
        order = c.pick(["one by one", "prepare all", "prepare all reversed", "create all",
                        "create all reversed"])
        procs.append({"calcs": calcs, "order": order})

    def create(x):
        pr = x["pr"]
        cls = m.engine.BoxDataPM if x["pm"] else m.engine.BoxData
        X = x["block"] * x["blocks"] + x["extra"]
        if x["source"] == "json":
            params = json.dumps({
                "number_of_samples": X, "number_of_blocks": x["blocks"],
                "number_of_states": pr.A, "number_of_beads": x["P"], "number_of_modes": pr.N,
                "temperature": x["T"], "block_size": x["block"],
                "delta_beta": x["db"], "id_data": pr.D, "id_rho": pr.R,
                "path_root": pr.root}, separators=(";", ":"))
            data = cls.from_json_string(params)
        else:
            FS = pr.FS()
            if x["source"] == "FS":
                data = cls.from_FileStructure(FS)
                x["db"] = models.DELTA_BETA
            else:
                data = cls(x["db"]) if x["pm"] else cls()
                data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
                data.states, data.modes = pr.A, pr.N
            data.samples, data.blocks, data.block_size = X, x["blocks"], x["block"]
            data.beads, data.temperature = x["P"], x["T"]
            FS.generate_model_hashes()
            data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
        x["data"] = data

    def prepare(x):
        data = x["data"]
        log = w.current.proc.rng_log
        first = len(log)
        data.preprocess()
        x["log_prepare"] = log[first:]
        if c_perturb:
            w.point("prepared")

    def compute(x):
        data = x["data"]
        res = (m.engine.BoxResultPM if x["pm"] else m.engine.BoxResult)(data=data)
        res.path_root, res.id_job = x["pr"].results, x["J"]
        log = w.current.proc.rng_log
        first = len(log)
        (m.engine.block_compute_pm if x["pm"] else m.engine.block_compute)(data, res)
        x["log_compute"] = log[first:]
        x["vec"] = getattr(data, "circulant_eigvects", None)
        x.pop("data")
    c_perturb = c.chance(60)

    def program(p):
        if p["order"] == "one by one":
            for x in p["calcs"]:
                create(x)
                prepare(x)
                compute(x)
        else:
            if p["order"].startswith("create all"):
                for x in p["calcs"]:
                    create(x)
                for x in p["calcs"]:
                    prepare(x)
            else:
                for x in p["calcs"]:
                    create(x)
                    prepare(x)
            todo = p["calcs"][::-1] if p["order"].endswith("reversed") else p["calcs"]
            for x in todo:
                compute(x)
    tasks = []
    for k, p in enumerate(procs):
        t = w.spawn(f"engine{k}", lambda p=p: program(p))
        t.proc.out = []
        tasks.append(t)
    w.run()
    for t in tasks:
        w.check_task(t, "sampling")
    total = 0
    for p in procs:
        for x in p["calcs"]:
            total += check(w, x, p["order"])
    return {"nontrivial": total > 1,
            "desc": f"{nproc} processes, {[len(p['calcs']) for p in procs]} calculations, "
                    f"{[p['order'] for p in procs]}, {total} samples compared"}


def extreme(c, pr, regime, P, T):
    """models of the kind that only some users have -> temperature"""
    K = models
    beta = 1.0 / (K.BOLTZMAN * T)
    if regime == "far":
        # the oscillators are displaced so far that the weights of the coupled model vanish
        pr.vib.pop(K.K_G2, None)
        T = c.pick([300.0, 1000.0])
        A, w = pr.rho[K.K_A], pr.vib[K.K_W]
        rs = np.random.RandomState(c.integer(0, 10 ** 6))
        q = c.integer(20, 80) * rs.uniform(.7, 1.3, (pr.N, A))
        pr.rho = {**pr.rho, K.K_G1: np.round(q * w[:, None], 6)}
        delta = -0.5 * (pr.rho[K.K_G1] ** 2 / w[:, None]).sum(0)
        pr.rho[K.K_E] = np.round(rs.uniform(0, .05, A) - delta, 6)
        pr.rho.pop(K.K_G2, None)
    elif regime == "high":
        # vertical energies of ionised molecules
        e = c.pick([10.354, 14.166529, 20.0, -3.0])
        e = float(np.sign(e) * min(abs(e), 400.0 * P / beta))
        pr.vib[K.K_E] = pr.vib[K.K_E] + e * np.eye(pr.A)
        pr.rho = {**pr.rho, K.K_E: pr.rho[K.K_E] + e}
    elif regime == "stiff":
        w = np.round(pr.vib[K.K_W] * 10, 5)
        pr.vib[K.K_W] = w
        pr.rho = {**pr.rho, K.K_W: w.copy()}
        T = round(float(w.sum()) / (K.BOLTZMAN * c.integer(1450, 1650)), 2)
    return T


def check(w, x, order):
    pr = x["pr"]
    name = pr.pimc_name(x["P"], x["T"], x["J"])
    n = x["block"] * x["blocks"]
    what = (f"data set {pr.D}: {pr.vib[models.K_A]} surfaces, {pr.rho[models.K_A]} oscillators, "
            f"{pr.N} modes, P={x['P']} T={x['T']}, {x['blocks']} blocks of {x['block']} ({order}{', ' if x['regime'] else ''}{x['regime']})")
    d = read_npz(pr.results + name)
    need(d is not None, "missing-result", f"{what}: {name} is not there or not complete")
    cols = ("s_rho", "s_g") + (("s_gP", "s_gM") if x["pm"] else ())
    for k in cols:
        need(k in d and d[k].shape == (n,), "wrong-count",
             f"{what}: {k} holds {d[k].shape if k in d else 'nothing'}, {n} samples were drawn")
        need(bool(np.isfinite(d[k]).all()), "unfilled-samples", f"{what}: {k} is not finite")
    ref = models.Reference(pr.vib_full(), pr.rho_full(), x["T"], x["P"], x["db"])
    val, vec = ref.collective(x["vec"])
    # what was drawn
    choices = [e for e in x["log_prepare"] if e[0] == "choice"]
    normals = [e for e in x["log_compute"] if e[0] == "normal"]
    shape = (x["block"], pr.N, x["P"])
    known = (len(choices) == 1 and len(x["log_prepare"]) == 1 and len(normals) == x["blocks"]
             and len(x["log_compute"]) == x["blocks"]
             and choices[0][1].shape == (n + x["extra"],)
             and all(e[1].shape == shape for e in normals))
    if not known:
        w.probe("random_numbers_drawn_differently")
        # however they are drawn: a sample shares neither its oscillator nor its path with another
        log = x["log_prepare"] + x["log_compute"]
        for kind, per, which in (("choice", 1, "oscillators"), ("normal", pr.N * x["P"], "numbers")):
            drawn = sum(e[1].size for e in log if e[0] == kind)
            need(not 0 < drawn < n * per, "shared-draws",
                 f"{what}: only {drawn} {which} were drawn for {n} samples")
        return 0
    p = choices[0][2]
    if p is not None:
        w.probe("weights_compared")
        need(p.shape == (pr.rho[models.K_A],) and np.allclose(p, ref.weights(), 1e-8, 1e-12),
             "wrong-distribution",
             f"{what}: oscillators are chosen with weights {p.tolist()}, the sampling model "
             f"has {ref.weights().tolist()}")
    dev = ref.deviations(val)
    sources = choices[0][1]
    for b, e in enumerate(normals):
        scale = np.broadcast_to(e[2], shape)
        need(np.allclose(scale, dev[None], rtol=1e-8, atol=0), "wrong-distribution",
             f"{what}: the width of the sampled coordinates is not that of the sampling model")
        for i in range(x["block"]):
            s = b * x["block"] + i
            R = ref.bead_coordinates(int(sources[s]), e[1][i], vec)
            lr = ref.log_rho(R)
            for which, key in (("0", "s_g"), ("+", "s_gP"), ("-", "s_gM")):
                if key not in cols:
                    continue
                lg, sign, cond = ref.log_g(R, which)
                have = d[key][s] / d["s_rho"][s]
                if lg - lr < -600:
                    need(abs(have) < 1e-250, "wrong-sample",
                         f"{what}: sample {s}: {key}/s_rho is {have!r}, expected nearly nothing")
                    w.probe("vanishing_sample")
                    continue
                want = sign * np.exp(lg - lr)
                ok = close(have, want, rel=1e-7 * max(1.0, cond))
                need(ok, "wrong-sample",
                     f"{what}: sample {s} (block {b}, position {i}): {key}/s_rho is {have!r}, "
                     f"expected {want!r}")
    return n
