"""C13 - orthonormal matrices grow from the identity, also while the sequences are regenerated."""
import sys
from .common import *

ID = "C13"
MAX_STEPS = 60000


def generator(n):
    up = np.triu(np.ones((n, n)), 1)
    return up - up.T


class Rotation:
    """exp(x S), from the eigenvalues of S"""
    cache = {}

    def __init__(self, n):
        self.n = n
        self.S = generator(n)
        ev, self.V = np.linalg.eigh(1j * self.S)      # S = -i V diag(ev) V^H
        self.theta = -ev

    @classmethod
    def of(cls, n):
        if n not in cls.cache:
            cls.cache[n] = cls(n)
        return cls.cache[n]

    def matrix(self, x):
        return ((self.V * np.exp(1j * x * self.theta)) @ self.V.conj().T).real

    def distance(self, x):
        return float(np.sqrt(np.sum(4 * np.sin(x * self.theta / 2) ** 2)))

    def x_of(self, d):
        """the x in the first branch with that distance"""
        lo, hi = 0.0, 1.0
        for _ in range(80):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if self.distance(mid) < d else (lo, mid)
        return (lo + hi) / 2


SHIPPED = {}


def version(text):
    """what a file of distances allows: the largest distance and the gap between neighbours"""
    rows = [[float(x) for x in line.split(",")] for line in text.splitlines() if line.strip()]
    y = [r[0] for r in rows]
    return {"text": text, "y": y, "max": y[-1],
            "gap": max(b - a for a, b in zip(y, y[1:]))}


def scenario(w, c):
    m = env.modules
    seq = sys.modules["pibronic.vibronic.orthonormal.sequences"]
    home = w.path("package")
    os.makedirs(home)
    orders = c.shuffled([2, 3, 4, 5, 7, 10])[:c.integer(1, 2)]
    regenerate = c.chance(45)
    if regenerate:
        orders = c.shuffled([2, 3, 4])[:1] + [n for n in orders if n > 4][:1]
    target = orders[0]
    known = {}
    shipped = os.path.join(env.REPO, "pibronic/vibronic/orthonormal")
    for n in orders:
        if n not in SHIPPED:
            SHIPPED[n] = version(read_text(f"{shipped}/sequence_{n}.data"))
        text = SHIPPED[n]["text"]
        with REAL["open"](f"{home}/sequence_{n}.data", "w") as f:
            f.write(text)
        known[n] = [SHIPPED[n]]
    away = w.path("control")
    os.makedirs(away)
    bins = c.pick([150, 200, 260])

    def make(where):
        # the resolution of the tables is the author's choice; here it has to be quick
        seq.n_bins, seq.linspace_dims = bins, (0, 8, 240)
        seq.generate_full_monotonic_sequence(target)
    saved = seq.__file__
    try:
        seq.__file__ = os.path.join(away, "sequences.py")
        where = getattr(seq, "path_to_sequence_file", lambda n: "")(target)
        if not where.startswith(away) or not hasattr(seq, "generate_full_monotonic_sequence"):
            regenerate = False      # the tables cannot be moved away: leave them as they are
        if regenerate:
            t = w.spawn("alone", lambda: make(away))
            w.run()
            w.check_task(t, "generating a sequence")
            known[target].append(version(read_text(f"{away}/sequence_{target}.data")))
        seq.__file__ = os.path.join(home, "sequences.py")
        return body(w, c, m, seq, home, orders, target, known, regenerate, make)
    finally:
        seq.__file__ = saved


def body(w, c, m, seq, home, orders, target, known, regenerate, make):
    w.p_switch = c.pick([0.3, 0.05, 0.7])
    w.hosts = c.pick([1, 1, 2, 3])
    create = m.vIO.create_orthonormal_matrix_lambda_close_to_identity
    seen = {}

    def look(world, label):
        for n in orders:
            path = f"{home}/sequence_{n}.data"
            try:
                st = REAL["os.stat"](path)
            except OSError:
                raise Violation("lost-sequence", f"{os.path.basename(path)} disappeared (at {label})")
            key = (st.st_ino, st.st_size, st.st_mtime_ns)
            if seen.get(path) == key:
                continue
            seen[path] = key
            text = read_text(path)
            need(any(text == v["text"] for v in known[n]), "partial-sequence",
                 f"the sequence of order {n} is no complete version ({len(text)} characters, "
                 f"at {label})")
    w.observers.append(look)

    rot = {n: Rotation.of(n) for n in orders}
    for n in orders:
        for v in known[n]:
            need(0 < v["max"] <= np.sqrt(n) / 2 + 1e-9, "wrong-range",
                 f"the largest distance for order {n} is {v['max']}, a quarter of the period is "
                 f"{np.sqrt(n) / 2}")
            need(v["y"][0] == 0.0 and all(b > a for a, b in zip(v["y"], v["y"][1:])),
                 "not-monotonic", f"the distances for order {n} do not increase")

    def fits(U, n, p, v):
        """-> reason why U is not the matrix of p under this version"""
        d = float(np.linalg.norm(U - np.eye(n)))
        want = p * v["max"]
        if p == 0:
            return None if np.array_equal(U, np.eye(n)) else "not the identity"
        if p == 1 and not np.isclose(d, v["max"], rtol=1e-9):
            return f"distance {d}, the largest is {v['max']}"
        slack = 1e-5 * want + 2e-8
        if not want - v["gap"] - slack <= d <= want + slack:
            return f"distance {d} instead of {want} (neighbours are {v['gap']} apart)"
        if not np.allclose(U, rot[n].matrix(rot[n].x_of(d)), rtol=0, atol=1e-6):
            return "a rotation of another kind"
        return None

    drawn = []

    def in_place(n):
        text = read_text(f"{home}/sequence_{n}.data")
        return [v["text"] for v in known[n]].index(text)

    def user(todo, got):
        for n, p in todo:
            first = in_place(n)
            try:
                U = create(n, p)
            except OSError as e:
                if w.faults_fired.get("read_error") or w.faults_fired.get("open_error"):
                    continue
                raise Violation("unexpected-failure", f"order {n}, parameter {p}: {describe(e)}")
            U = np.asarray(U)
            what = f"order {n}, parameter {p}"
            need(U.shape == (n, n) and np.allclose(U @ U.T, np.eye(n), rtol=0, atol=1e-9)
                 and np.linalg.det(U) > 0, "not-orthonormal", f"{what}: not a rotation")
            bad = [fits(U, n, p, v) for v in known[n][first:in_place(n) + 1]]
            need(None in bad, "wrong-distance", f"{what}: {'; '.join(map(str, bad))}")
            bad = [None] * first + bad
            got.append((n, p, float(np.linalg.norm(U - np.eye(n))), bad.index(None, first)))
            drawn.append((n, p))

    def parameter():
        return c.pick([0.0, 1.0, 0.5, 1e-3, 1e-7, c.real(0, 1), c.real(0, 1), c.real(0, 0.02),
                       1 - 1e-9, 0.25])
    users = []
    for k in range(c.integer(1, 3)):
        todo = [(c.pick(orders), parameter()) for _ in range(c.integer(2, 5))]
        got = []
        t = w.spawn(f"user{k}", lambda todo=todo, got=got: user(todo, got))
        t.proc.faults = swarm_io(c, ["short_read", "read_error", "open_error"], 0.1, 30)
        users.append((t, got))
    kind = "none"
    if regenerate:
        before = [(target, parameter())] if c.chance(50) else []
        got_new = []

        def author():
            user(before, got_new)
            make(home)
            user([(target, parameter()), (target, 1.0)], got_new)
        t_new = w.spawn("author", author)
        kind = c.pick(["none", "crash", "crash", "disk"])
        if kind == "crash":
            t_new.proc.crash_at = c.integer(1, 30)
        elif kind == "disk":
            t_new.proc.faults = swarm_io(c, ["write_error", "short_write", "open_error",
                                             "meta_error"], 0.15, 60)
    if c.chance(20):
        def careless():
            for n, p in ((c_orders[0], 1.0 + c_over), (c_orders[0], -c_over), (11, 0.5), (1, 0.5)):
                try:
                    create(n, p)
                except (AssertionError, OSError, ValueError):
                    continue
                raise Violation("accepted-parameter", f"order {n}, parameter {p} was accepted")
            w.probe("refused")
        c_orders, c_over = orders, c.pick([1e-6, 0.5, 3.0])
        t = w.spawn("careless", careless)
        users.append((t, []))
    w.run()
    look(w, "end")
    for t, got in users:
        if failed(t):
            raise Violation("unexpected-failure", describe(t.exc))
        done = {}
        for n, p, d, v in got:
            done.setdefault((n, v), []).append((p, d))
        for (n, v), points in done.items():
            points.sort()
            for (p1, d1), (p2, d2) in zip(points, points[1:]):
                need(d1 <= d2 * (1 + 1e-5) + 2e-8, "not-monotonic",
                     f"order {n}: parameter {p1} gives the distance {d1}, {p2} gives {d2}")
    if regenerate:
        if failed(t_new):
            if kind != "disk" or not any(w.faults_fired.get(k) for k in (
                    "write_error", "open_error", "meta_error")):
                raise Violation("unexpected-failure", f"generating: {describe(t_new.exc)}")
        elif t_new.exc is None:
            need(read_text(f"{home}/sequence_{target}.data") == known[target][1]["text"],
                 "lost-sequence", "a sequence was generated but is not in the file")
            w.probe("regenerated")
    return {"nontrivial": len(users) > 1 or regenerate,
            "desc": f"orders {orders}, {len(drawn)} matrices"
                    f"{', order ' + str(target) + ' generated meanwhile: ' + kind if regenerate else ''}"}
