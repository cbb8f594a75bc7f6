"""C05 - a stored model, result or matrix is always a complete version, and reads back exactly."""
from .common import *

ID = "C05"
MAX_STEPS = 30000
K = models
ORDERS = (K.K_E, K.K_G1, K.K_G2, K.K_G3, K.K_G4)


def full_model(c, A, N, diagonal=False, orders=None, tag=0):
    """a model with couplings up to a drawn order, as plain arrays"""
    rs = np.random.RandomState(c.integer(0, 10 ** 6) + tag)
    tail = (A,) if diagonal else (A, A)
    m = {K.K_N: N, K.K_A: A, K.K_W: rs.uniform(0.01, 0.5, N)}
    for i, k in enumerate(ORDERS[:c.integer(1, 5) if orders is None else orders]):
        kind = c.pick(["full", "full", "zero", "sparse"])
        a = rs.uniform(-1, 1, (N,) * i + tail) * 10.0 ** rs.randint(-9, 1)
        if kind == "zero":
            a = np.zeros_like(a)
        elif kind == "sparse":
            a[rs.uniform(size=a.shape) < 0.7] = 0.0
        if not diagonal:
            a = K.sym(a)
        if i in (2, 4):
            axes = list(range(a.ndim))
            axes[:i] = axes[:i][::-1] if i == 2 else [axes[1], axes[0], axes[3], axes[2]]
            a = (a + a.transpose(axes)) / 2
        m[k] = a
    return m


def parse(text, diagonal):
    """the arrays a model file stands for; an array that is not in the file is zero"""
    try:
        d = json.loads(text)
    except ValueError:
        return None
    try:
        A, N = int(d[K.K_A]), int(d[K.K_N])
    except (KeyError, TypeError):
        return None
    tail = (A,) if diagonal else (A, A)
    out = {K.K_N: N, K.K_A: A}
    for k in (K.K_W,) + ORDERS:
        shape = (N,) if k == K.K_W else (N,) * ORDERS.index(k) + tail
        a = np.array(d[k], dtype=float) if k in d else np.zeros(shape)
        if a.shape != shape:
            return None
        out[k] = a
    return out


def normal(m, diagonal):
    """the same form, of a model in memory"""
    A, N = m[K.K_A], m[K.K_N]
    tail = (A,) if diagonal else (A, A)
    out = {K.K_N: N, K.K_A: A}
    for k in (K.K_W,) + ORDERS:
        shape = (N,) if k == K.K_W else (N,) * ORDERS.index(k) + tail
        out[k] = np.array(m[k], dtype=float) if k in m else np.zeros(shape)
    return out


def equal(a, b, exact=True):
    if a is None or b is None or a[K.K_A] != b[K.K_A] or a[K.K_N] != b[K.K_N]:
        return False
    for k in (K.K_W,) + ORDERS:
        if a[k].shape != b[k].shape:
            return False
        if exact and not np.array_equal(a[k], b[k]):
            return False
        if not exact and not np.allclose(a[k], b[k], rtol=1e-9,
                                         atol=1e-11 * (1 + np.abs(b[k]).max() if b[k].size else 0)):
            return False
    return True


def diag_of(m):
    out = dict(m)
    for k in ORDERS:
        if k in m:
            out[k] = np.diagonal(m[k], axis1=-2, axis2=-1).copy()
    return out


def rotated(m, U):
    out = dict(m)
    for k in ORDERS:
        if k in m:
            out[k] = np.einsum("ij,...jk,lk->...il", U, m[k], U)
    return out


def from_enum(d):
    return {k.value if hasattr(k, "value") else k: v for k, v in d.items()}


class Watch:
    """which versions of which file a reader may meet"""

    def __init__(self, w):
        self.w = w
        self.files = {}          # path -> dict
        self.seen = {}
        w.observers.append(self.look)

    def add(self, path, check, absent):
        self.files[path] = {"check": check, "absent": absent}

    def look(self, world, label):
        for path, f in self.files.items():
            try:
                st = REAL["os.stat"](path)
            except OSError:
                need(f["absent"], "lost-file",
                     f"{os.path.basename(path)} disappeared (at {label})")
                continue
            key = (st.st_ino, st.st_size, st.st_mtime_ns)
            if self.seen.get(path) == key:
                continue
            self.seen[path] = key
            with REAL["open"](path, "rb") as g:
                raw = g.read()
            f["check"](raw, label)


def scenario(w, c):
    w.p_switch = c.pick([0.2, 0.5, 0.03])
    w.hosts = c.pick([1, 1, 2, 3])
    return c.pick([save_load, derive, fake, save_load, results, reweigh])(w, c)


def disturb(c, task, reach):
    """a crash or a failing disk for one task"""
    kind = c.pick(["none", "crash", "crash", "disk"])
    if kind == "crash":
        task.proc.crash_at = c.integer(1, reach)
    elif kind == "disk":
        task.proc.faults = swarm_io(c, ["write_error", "short_write", "open_error", "meta_error",
                                        "read_error", "short_read"], 0.12, 60)
    return kind


def io_failed(w):
    return any(w.faults_fired.get(k) for k in ("write_error", "open_error", "meta_error",
                                               "read_error"))


def settle(w, t, kind, what):
    """-> True when the task succeeded"""
    if failed(t):
        if kind == "disk" and io_failed(w):
            return False
        raise Violation("unexpected-failure", f"{what}: {describe(t.exc)}")
    return t.exc is None


# --------------------------------------------------------------------------
def save_load(w, c):
    m = env.modules
    diagonal = c.chance(40)
    A, N = (c.integer(1, 3), c.integer(1, 3)) if c.chance(96) else c.pick([(11, 1), (2, 9), (7, 3)])
    path = w.path("work", "model.json")
    os.makedirs(w.path("work"))
    save = m.vIO.save_diagonal_model_to_JSON if diagonal else m.vIO.save_model_to_JSON
    load = m.vIO.load_diagonal_model_from_JSON if diagonal else m.vIO.load_model_from_JSON
    VMK = m.VMK
    versions = [full_model(c, A, N, diagonal, tag=i) for i in range(c.integer(1, 3))]
    exists = c.chance(60)
    ok = []
    if exists:
        old = full_model(c, c.integer(1, 3), c.integer(1, 3), diagonal, tag=50)
        write_text(path, models.to_text(old))
        ok.append(normal(old, diagonal))
    new = [normal(v, diagonal) for v in versions]
    watch = Watch(w)

    def check(raw, label):
        got = parse(raw.decode("utf-8", "replace"), diagonal)
        need(got is not None, "partial-model",
             f"the model file is not complete ({len(raw)} bytes, at {label})")
        need(any(equal(got, v) for v in ok + new), "altered-model",
             f"the model file holds neither the previous nor a new model (at {label})")
    watch.add(path, check, not exists)
    together = c.chance(50)
    tasks, kinds = [], []
    for i, v in enumerate(versions):
        def body(i=i, v=v):
            if i and not together:
                w.block(lambda: tasks[i - 1].done, "previous save")
            d = models.enum_dict(v, VMK)
            save(path, d)
            for k, x in d.items():
                need(hasattr(k, "value"), "argument-modified", "the saved dictionary was changed")
            need(equal(normal(from_enum(d), diagonal), new[i]), "argument-modified",
                 "saving a model changed it")
        t = w.spawn(f"writer{i}", body)
        tasks.append(t)
        kinds.append(disturb(c, t, 12))
    readers = []
    for i in range(c.integer(0, 2)):
        def read():
            if c_inplace:
                tail = (A,) if diagonal else (A, A)
                d = {VMK.N: N, VMK.A: A}
                for k in (VMK.E, VMK.w, VMK.G1, VMK.G2):
                    shape = (N,) if k is VMK.w else (N,) * ORDERS.index(k.value) + tail
                    d[k] = np.full(shape, 9.75)
                given = dict(d)
                load(path, d)
                need(all(d[k] is x or np.array_equal(d[k], x) for k, x in given.items()),
                     "altered-model", "the arrays to be filled do not hold the model")
                return d
            return load(path)
        t = w.spawn(f"reader{i}", read)
        readers.append(t)
    c_inplace = c.chance(40) and not exists
    # a model that breaks the file conventions is refused and changes nothing
    if c.chance(30):
        def refuse():
            bad = models.enum_dict(full_model(c_bad, A, N, diagonal, orders=3, tag=900), VMK)
            bad[VMK.G1] = np.ones((N + 1,) + bad[VMK.G1].shape[1:])
            try:
                save(path, bad)
            except Exception:
                w.probe("bad_model_refused")
                return
            raise Violation("bad-model-stored", "a model with a wrong shape was stored")
        c_bad = c
        w.spawn("careless", refuse)
    w.run()
    watch.look(w, "end")
    for t in w.tasks:
        if t.name == "careless" and t.exc is not None:
            raise t.exc
    for t in readers:
        if t.exc is None:
            got = from_enum(t.result)
            if c_inplace:
                want = [v for v in new if all(equal_part(got, v, k) for k in (
                    K.K_E, K.K_W, K.K_G1, K.K_G2))]
                need(want, "altered-model", "a reader got arrays of no version of the model")
            else:
                need(any(equal(normal(got, diagonal), v) for v in ok + new), "altered-model",
                     "a reader got a model that was never stored")
                need(K.K_E in got, "altered-model", "a loaded model lacks its energies")
            w.probe("concurrent_read")
        elif exists and not isinstance(t.exc, SimCrash):
            raise Violation("unexpected-failure", f"reading: {describe(t.exc)}")
        elif failed(t) and not isinstance(t.exc, (FileNotFoundError, AssertionError, OSError)):
            raise Violation("partial-model", f"reading: {describe(t.exc)}")
    good = [settle(w, t, k, "saving a model") for t, k in zip(tasks, kinds)]
    if not together and all(k == "none" for k in kinds):
        need(equal(parse(read_text(path), diagonal), new[-1]), "lost-model",
             "the file does not hold the model that was saved last")
    if any(good):
        need(os.path.exists(path), "lost-model", "a model was saved but there is no file")
    # when the faults are over, saving works and reads back exactly
    final = c.pick(versions)
    other = (c.integer(1, 3), c.integer(1, 3))

    def again():
        save(path, models.enum_dict(final, VMK))
        back = from_enum(load(path))
        need(equal(normal(back, diagonal), normal(final, diagonal)), "altered-model",
             "a model does not read back as it was saved")
        dims = (m.vIO.extract_dimensions_of_diagonal_model if diagonal
                else m.vIO.extract_dimensions_of_model)(path=path)
        need(tuple(dims) == (A, N), "altered-model", f"the dimensions read back are {dims}")
        h = (m.vIO.create_diagonal_model_hash if diagonal else m.vIO.create_model_hash)(path=path)
        need(h == sha512(read_text(path)), "wrong-hash", "the hash is not that of the file")
        # arrays of other dimensions cannot hold the model
        if other != (A, N):
            tail = other[:1] if diagonal else (other[0],) * 2
            d = {VMK.N: other[1], VMK.A: other[0], VMK.w: np.full(other[1:], 9.75)}
            for k in (VMK.E, VMK.G1, VMK.G2):
                d[k] = np.full((other[1],) * ORDERS.index(k.value) + tail, 9.75)
            try:
                load(path, d)
            except Exception:
                w.probe("other_dimensions_refused")
            else:
                raise Violation("altered-model", f"a model of {A} surfaces and {N} modes was "
                                f"loaded into arrays for {other[0]} and {other[1]}")
        if not diagonal:
            d = models.enum_dict(final, VMK)
            m.vIO.fill_offdiagonal_of_model_with_zeros(d)
            d = normal(from_enum(d), False)
            off = ~np.eye(A, dtype=bool)
            need(equal(diag_of(d), diag_of(normal(final, False))), "altered-model",
                 "uncoupling the surfaces of a model changed their own terms")
            need(all(not np.any(x[..., off]) for k, x in d.items()
                     if k != K.K_W and getattr(x, "ndim", 0) > 1), "altered-model",
                 "the surfaces of an uncoupled model are coupled")
    t = w.spawn("again", again)
    w.run()
    w.check_task(t, "saving after the faults")
    return {"nontrivial": len(versions) > 1 or any(k != "none" for k in kinds),
            "desc": f"save {'diagonal ' if diagonal else ''}model, {len(versions)} writers "
                    f"{kinds}, {len(readers)} readers"}


def equal_part(got, want, k):
    return k in got and got[k].shape == want[k].shape and np.array_equal(got[k], want[k])


# --------------------------------------------------------------------------
def derive(w, c):
    """models derived from the coupled model: harmonic, sampling"""
    m = env.modules
    A, N = (c.integer(1, 3), c.integer(1, 2)) if c.chance(95) else c.pick([(6, 2), (12, 1)])
    pr = Project(w, c, A=A, N=N)
    src = full_model(c, A, N)
    pr.vib = src
    pr.write_models()
    want = normal(diag_of(src), True)
    prev = normal(pr.rho, True)
    watch = Watch(w)
    har = pr.data + "parameters/harmonic_model.json"
    had = c.chance(50)
    if had:
        write_text(har, models.to_text(pr.rho))

    def check(name):
        def f(raw, label):
            got = parse(raw.decode("utf-8", "replace"), True)
            need(got is not None, "partial-model", f"{name} is not complete (at {label})")
            need(equal(got, want) or equal(got, prev), "altered-model",
                 f"{name} is neither the previous nor the diagonal of the model (at {label})")
        return f
    watch.add(har, check("the harmonic model"), not had)
    watch.add(pr.rho_path, check("the sampling model"), False)

    def vib_check(raw, label):
        need(raw.decode() == pr.vib_text, "altered-model", "the coupled model was changed")
    watch.add(pr.vib_path, vib_check, False)
    how = c.pick(["basic", "harmonic", "basic"])
    users = c.pick([1, 1, 2])
    tasks, kinds = [], []

    def body():
        FS = pr.FS()
        if how == "basic":
            return m.vIO.create_basic_diagonal_model(FS)
        return m.vIO.create_harmonic_model(FS)
    for k in range(users):
        t = w.spawn(f"user{k}", body)
        tasks.append(t)
        kinds.append(disturb(c, t, 50))
    w.run()
    watch.look(w, "end")
    for t, k in zip(tasks, kinds):
        if settle(w, t, k, "deriving a model"):
            p = pr.rho_path if how == "basic" else har
            need(equal(parse(read_text(p), True), want), "altered-model",
                 f"{os.path.basename(p)} is not the diagonal of the coupled model")
    t = w.spawn("again", body)
    w.run()
    w.check_task(t, "deriving a model after the faults")
    p = pr.rho_path if how == "basic" else har
    need(equal(parse(read_text(p), True), want), "altered-model",
         f"{os.path.basename(p)} is not the diagonal of the coupled model")
    return {"nontrivial": users > 1 or kinds != ["none"], "desc": f"derive {how} {kinds}"}


# --------------------------------------------------------------------------
def fake(w, c):
    """replacing the coupled model by its transform: the original must survive"""
    m = env.modules
    A, N = (c.integer(2, 3), c.integer(1, 2)) if c.chance(95) else c.pick([(6, 1), (9, 1)])
    pr = Project(w, c, A=A, N=N)
    pr.vib = full_model(c, A, N)
    pr.write_models()
    M = normal(pr.vib, False)
    orig = pr.data + "parameters/original_coupled_model.json"
    mat = pr.data + "parameters/orthogonal_matrix.npy"
    rs = np.random.RandomState(c.integer(0, 10 ** 6))
    U, _ = np.linalg.qr(rs.normal(size=(A, A)))
    how = c.pick(["given", "tuned", "re-use", "given"])
    if c.chance(8):
        # a matrix of another order belongs to another model
        B = c.pick([b for b in (1, 2, 3, 4) if b != A])
        U = np.linalg.qr(rs.normal(size=(B, B)))[0]
        how = c.pick(["given", "re-use"])
        if how == "re-use":
            with REAL["open"](mat, "wb") as f:
                np.save(f, U)

        def misfit():
            m.vIO.create_fake_coupled_model(pr.FS(), transformation_matrix=(
                "re-use" if how == "re-use" else U.copy()))
        t = w.spawn("user", misfit)
        w.run()
        need(failed(t), "bad-matrix-used", f"a matrix of order {B} transformed {A} surfaces")
        need(read_text(pr.vib_path) == pr.vib_text, "lost-model",
             "a transformation that was refused changed the model")
        w.probe("misfit_refused")
        return {"nontrivial": False, "desc": f"fake coupled model, matrix of order {B} for {A}"}
    if how == "re-use":
        with REAL["open"](mat, "wb") as f:
            np.save(f, U)
    if c.chance(30):
        # left behind by the transformation of an earlier model
        write_text(orig, models.to_text(full_model(c, A, N, tag=7)))
        if how != "re-use":
            with REAL["open"](mat, "wb") as f:
                np.save(f, np.linalg.qr(rs.normal(size=(A, A)))[0])
    before = parse(read_text(orig), False) if os.path.exists(orig) else None
    state = {}
    watch = Watch(w)

    def matrix():
        try:
            with REAL["open"](mat, "rb") as f:
                return np.load(f)
        except (OSError, ValueError, EOFError):
            return None

    def check_vib(raw, label):
        got = parse(raw.decode("utf-8", "replace"), False)
        need(got is not None, "partial-model", f"the coupled model is not complete (at {label})")
        if equal(got, M):
            return
        state["transformed"] = True
        kept = parse(read_text(orig), False) if os.path.exists(orig) else None
        need(equal(kept, M), "lost-original",
             f"the coupled model was replaced but the original is not safely stored (at {label})")
        V = matrix()
        need(V is not None and V.shape == (A, A), "lost-original",
             f"the coupled model was replaced but the matrix is not stored (at {label})")
        need(np.allclose(V @ V.T, np.eye(A)), "altered-model", "the matrix is not orthogonal")
        if how != "tuned":
            need(np.array_equal(V, U), "altered-model", "another matrix was stored")
        need(equal(got, normal(rotated(pr.vib, V), False), exact=False), "altered-model",
             f"the coupled model is not the transform of the original (at {label})")

    def check_orig(raw, label):
        got = parse(raw.decode("utf-8", "replace"), False)
        need(equal(got, M) or before is not None and equal(got, before), "partial-model",
             f"the copy of the original model is not complete (at {label})")
    watch.add(pr.vib_path, check_vib, False)
    watch.add(orig, check_orig, True)

    def body():
        FS = pr.FS()
        if how == "tuned":
            m.vIO.create_fake_coupled_model(FS, tuning_parameter=tuning)
        elif how == "re-use":
            m.vIO.create_fake_coupled_model(FS, transformation_matrix="re-use")
        else:
            m.vIO.create_fake_coupled_model(FS, transformation_matrix=U.copy())
    tuning = c.pick([0.01, 0.1, 0.3, 0.0, 1.0])
    t = w.spawn("user", body)
    kind = disturb(c, t, 70)
    w.run()
    watch.look(w, "end")
    done = settle(w, t, kind, "transforming the model")
    def stored():
        V = matrix()
        need(V is not None and equal(parse(read_text(pr.vib_path), False),
                                     normal(rotated(pr.vib, V), False), exact=False)
             and equal(parse(read_text(orig), False), M), "lost-model",
             "the transformed model and its original are not stored")
    if done:
        stored()
    elif not state.get("transformed"):
        w.probe("interrupted_before_replacing")
        t = w.spawn("again", body)
        w.run()
        watch.look(w, "end")
        w.check_task(t, "transforming the model after an interruption")
        stored()
    return {"nontrivial": kind != "none", "desc": f"fake coupled model ({how}), {kind}"}


# --------------------------------------------------------------------------
def results(w, c):
    """result files: complete or absent, and they read back exactly"""
    m = env.modules
    pr = Project(w, c)
    pr.write_models()
    P, T = c.pick([3, 64]), c.pick([300.0, 12.25])
    pm = not c.chance(30)
    cls = m.engine.BoxResultPM if pm else m.engine.BoxResult
    n = c.integer(1, 60)
    rs = np.random.RandomState(c.integer(0, 10 ** 6))
    rows = [rs.uniform(-1, 1, (n, 4)) for _ in range(c.integer(1, 2))]
    path = pr.results + pr.pimc_name(P, T, 5)
    had = c.chance(50)
    old = rs.uniform(-1, 1, (4, 4))
    if had:
        pr.put_result(P, T, 5, old)
    watch = Watch(w)
    cols = ("s_rho", "s_g") + (("s_gP", "s_gM") if pm else ())

    def matches(d, r):
        return all(np.array_equal(d[k], r[:, i]) for i, k in enumerate(cols))

    def check(raw, label):
        d = read_npz(path)
        need(d is not None and all(k in d for k in cols), "partial-result",
             f"the result file is not complete ({len(raw)} bytes, at {label})")
        need(any(len(d["s_g"]) == len(r) and matches(d, r) for r in rows + [old] * had),
             "altered-result", f"the result file holds samples nobody stored (at {label})")
        need(int(d.get("number_of_samples", -1)) == len(d["s_g"]), "altered-result", "wrong sample count")
        need(str(d.get("hash_vib")) == pr.hash_vib
             and str(d.get("hash_rho")) == pr.hash_rho, "wrong-stamp", "the result file lost its stamps")
    watch.add(path, check, not had)
    from functools import partial

    def save(r):
        x = cls(X=n)
        x.partial_name = partial(m.fn.pimc().format, P=P, T=T)
        x.path_root, x.id_job = pr.results, 5
        x.hash_vib, x.hash_rho = pr.hash_vib, pr.hash_rho
        x.scaled_rho, x.scaled_g = r[:, 0].copy(), r[:, 1].copy()
        if pm:
            x.scaled_gofr_plus, x.scaled_gofr_minus = r[:, 2].copy(), r[:, 3].copy()
        x.save_results(n)
    tasks, kinds = [], []
    for i, r in enumerate(rows):
        t = w.spawn(f"job{i}", lambda r=r: save(r))
        tasks.append(t)
        kinds.append(disturb(c, t, 40))
    w.run()
    watch.look(w, "end")
    good = [settle(w, t, k, "saving results") for t, k in zip(tasks, kinds)]
    if any(good):
        need(os.path.exists(path), "lost-result", "results were saved but there is no file")
    final = c.pick(rows)

    def again():
        save(final)
        x = cls()
        x.load_results(path)
        need(int(x.samples) == n and np.array_equal(x.scaled_g, final[:, 1])
             and np.array_equal(x.scaled_rho, final[:, 0]), "altered-result",
             "a result file does not read back as it was saved")
        if pm:
            need(np.array_equal(x.scaled_gofr_plus, final[:, 2])
                 and np.array_equal(x.scaled_gofr_minus, final[:, 3]), "altered-result",
                 "a result file does not read back as it was saved")
    t = w.spawn("again", again)
    w.run()
    w.check_task(t, "saving and loading after the faults")
    return {"nontrivial": len(rows) > 1 or any(k != "none" for k in kinds),
            "desc": f"{cls.__name__} with {n} samples, {kinds}"}


# --------------------------------------------------------------------------
def reweigh(w, c):
    """the energies of an iterated sampling model, recalculated on the coupled model"""
    m = env.modules
    A, N, B = c.integer(1, 3), c.integer(1, 3), c.integer(1, 4)
    if c.chance(6):
        A, N, B = c.pick([(5, 2, 5), (6, 1, 9), (2, 8, 12)])
    pr = Project(w, c, A=A, N=N)
    pr.vib = full_model(c, A, N, orders=c.integer(1, 2))
    pr.rho = full_model(c, B, N, diagonal=True, orders=c.integer(1, 2), tag=5)
    # quadratic terms are not supported by this calculation; arrays of zeros are none
    quad = c.pick(["no", "no", "no", "no", "vib", "rho", "both"])
    for k, v, tail in (("vib", pr.vib, (A, A)), ("rho", pr.rho, (B,))):
        if quad in (k, "both"):
            v[K.K_G2] = np.full((N, N) + tail, 0.25)
        elif c.chance(30):
            v[K.K_G2] = np.zeros((N, N) + tail)
            w.probe("explicit_zeros")
    quad = quad != "no"
    pr.rho[K.K_W] = pr.vib[K.K_W].copy() if c.chance(60) else pr.rho[K.K_W]
    pr.write_models()
    pr.set_vib(models.to_text(pr.vib, zeros=True))
    pr.set_rho(models.to_text(pr.rho, zeros=True))
    old = normal(pr.rho, True)
    want = dict(old)
    V, lin = normal(pr.vib, False), old[K.K_G1]
    want[K.K_E] = np.zeros(B)
    for b in range(B):
        q = -lin[:, b] / old[K.K_W]
        H = V[K.K_E] + 0.5 * np.sum(V[K.K_W] * q * q) * np.eye(A) + np.tensordot(
            q, V[K.K_G1], 1)
        want[K.K_E][b] = np.linalg.eigvalsh(H)[0] + 0.5 * np.sum(lin[:, b] ** 2 / old[K.K_W])
    watch = Watch(w)
    state = {}

    def check(raw, label):
        got = parse(raw.decode("utf-8", "replace"), True)
        need(got is not None, "partial-model", f"the sampling model is not complete (at {label})")
        if equal(got, old):
            return
        need(equal(got, want, exact=False) and not quad, "altered-model",
             f"the energies {got[K.K_E].tolist()} are not those of the minima of the sampling "
             f"model, {want[K.K_E].tolist()} (at {label})")
        for k in (K.K_W,) + ORDERS[1:]:
            need(np.array_equal(got[k], old[k]), "altered-model",
                 f"the {k} of the sampling model were changed (at {label})")
        state["changed"] = True
    watch.add(pr.rho_path, check, False)

    def vib_check(raw, label):
        need(raw.decode() == pr.vib_text, "altered-model", "the coupled model was changed")
    watch.add(pr.vib_path, vib_check, False)

    def body():
        FS = pr.FS()
        for _ in range(repeat):
            m.vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
    repeat = c.pick([1, 1, 2])
    users = c.pick([1, 1, 2])
    tasks = [w.spawn(f"user{k}", body) for k in range(users)]
    kinds = [disturb(c, t, 40) for t in tasks]
    w.run()
    watch.look(w, "end")
    if quad:
        for t in tasks:
            need(t.exc is not None, "altered-model",
                 "quadratic terms are not supported, yet the energies were recalculated")
            failed(t)
    else:
        for t, k in zip(tasks, kinds):
            if settle(w, t, k, "recalculating energies"):
                need(equal(parse(read_text(pr.rho_path), True), want, exact=False),
                     "altered-model", "the energies were not recalculated")
        t = w.spawn("again", body)
        w.run()
        watch.look(w, "the end")
        w.check_task(t, "recalculating energies after the faults")
        need(equal(parse(read_text(pr.rho_path), True), want, exact=False),
             "altered-model", "the energies were not recalculated")
        w.probe("energies_recalculated")
    return {"nontrivial": users > 1 or kinds != ["none"],
            "desc": f"recalculate the energies of {B} oscillators on {A} surfaces, {kinds}"}
