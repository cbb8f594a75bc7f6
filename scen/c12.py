"""C12 - a model created from an operator file states what the file states."""
from .common import *
from .c05 import parse, equal, diag_of, Watch, ORDERS
import shutil

ID = "C12"
MAX_STEPS = 30000
K = models


def ended(t):
    e = t.exc
    if isinstance(e, (NameError, UnboundLocalError)) and __name__ in describe(e):
        raise HarnessError(describe(e))
    return failed(t)


def number(rs, scale=1.0):
    return float("%.6f" % (rs.uniform(-1, 1) * scale))


def operator(c, A, N, tag):
    """-> (text of an operator file, the model it states)"""
    rs = np.random.RandomState(c.integer(0, 10 ** 6) + tag)
    density = c.pick([0.3, 0.8, 1.0])
    m = {K.K_N: N, K.K_A: A, K.K_W: np.array([float("%.6f" % x) for x in rs.uniform(0.01, .5, N)]),
         K.K_E: np.zeros((A, A)), K.K_G1: np.zeros((N, A, A)), K.K_G2: np.zeros((N, N, A, A)),
         K.K_G3: np.zeros((N,) * 3 + (A, A)), K.K_G4: np.zeros((N,) * 4 + (A, A))}
    for a in range(A):
        m[K.K_E][a, a] = number(rs, 20)
    orders = {k: c.chance(p) for k, p in (("C1", 90), ("C2", 80), ("C2o", 60), ("C3", 50),
                                          ("C4", 50), ("B3", 50), ("B4", 50), ("A4", 50))}

    # couplings of an order may all be tiny, with as many digits as it takes
    form = c.pick([".6f", ".6f", ".6f", ".6e"])
    size = {k: 0.2 if c.chance(85) else 3e-6 if form == ".6f" else 3e-9 for k in sorted(orders)}

    def line(name, x, form=".6f"):
        gap = " " * max(1, 25 - len(name))
        return f"{name}{gap}={x:15{form}}    , ev \n"
    pairs = [(a, b) for b in range(A) for a in range(b + 1)]

    def section(kind, modes):
        out = []
        for a, b in pairs:
            for ij in modes:
                if not orders[kind] or rs.uniform() > density:
                    continue
                x = float(format(rs.uniform(-1, 1) * size[kind], form))
                if kind in ("C1", "C3", "C4"):
                    j, = ij
                    name = f"{kind}_s{a+1:02}_s{b+1:02}_v{j+1:02}"
                    key, idx = {"C1": (K.K_G1, (j,)), "C3": (K.K_G3, (j,) * 3),
                                "C4": (K.K_G4, (j,) * 4)}[kind]
                    idxs = [idx]
                else:
                    i, j = ij
                    name = f"{kind[:2]}_s{a+1:02}s{b+1:02}_v{i+1:02}v{j+1:02}"
                    key = {"C": K.K_G2, "B3": K.K_G3}.get(kind[0] if kind[0] == "C" else kind,
                                                           K.K_G4)
                    idxs = {"C": [(i, j), (j, i)], "B3": [(i, j, j)], "B4": [(i, j, j, j)],
                            "A4": [(i, i, j, j)]}["C" if kind[0] == "C" else kind]
                for idx in idxs:
                    m[key][idx + (a, b)] = x
                    m[key][idx + (b, a)] = x
                out.append(line(name, x, form))
        return out
    one = [(j,) for j in range(N)]
    two = [(i, j) for i in range(N) for j in range(N) if i != j]
    t = ["OP_DEFINE-SECTION\n", "title\n", "IP              \n", "end-title\n",
         "end-op_define-section\n", "\n\n", "PARAMETER-SECTION\n", "\n\n",
         "#        Frequencies \n", "# ------------------------ \n", "\n"]
    t += [line(f"w{j+1:02}", m[K.K_W][j]) for j in range(N)]
    t += ["\n", "#        Zeropoint energy     1.247753\n", "\n", "#   Electronic Hamitonian \n",
          "#   Vertical energies - Zeropoint \n", "# ------------------------------- \n", "\n"]
    t += [line(f"EH_s{a+1:02}_s{a+1:02}", m[K.K_E][a, a]) for a in range(A)]
    t += ["\n", "#     Electronic transition moments \n", "# ----------------------------------\n"]
    if c.chance(50):
        t += ["\n", "# tmom in direction Ex\n"]
        t += [line(f"Ex_s{A:02}_s{a+1:02}", 0.1) for a in range(A - 1)]
    t += ["\n", "#     Magnetic transition moments \n", "# ----------------------------------\n", "\n"]

    def head(s):
        return ["\n", f"#  {s} \n", "# " + "-" * len(s) + " \n", "\n"]
    t += head("Linear Coupling Constants") + section("C1", one)
    t += head("Diagonal Quadratic Coupling Constants") + section("C2", [(j, j) for j in range(N)])
    t += head("Off_diagonal Quadratic Coupling Constants")
    t += section("C2o", [(i, j) for i, j in two if i > j])
    t += head("Cubic Coupling Constants") + section("C3", one)
    t += head("Quartic Coupling Constants") + section("C4", one)
    t += head("Bi-Cubic Constants") + section("B3", two)
    b4 = section("B4", two)
    t += head("Bi-Quartic Constants") + b4 + section("A4", [(i, j) for i, j in two if i < j])
    t += ["\n\n", "end-parameter-section\n", "\n"]
    if c.chance(60):
        t += ["HAMILTONIAN-SECTION\n", "modes | el | " + " | ".join(f"q{j+1}" for j in range(N)),
              "\n"]
        t += [f"w{j+1:02} |{j+2} KE\n" for j in range(N)]
        t += [f"C1_s{a+1:02}_s{b+1:02}_v{j+1:02} |1 S{a+1}&{b+1} |{j+2} q\n"
              for a, b in pairs for j in range(N)]
        t += ["end-hamiltonian-section\n", "\n", "end-operator\n"]
    return "".join(t), m


def scenario(w, c):
    m = env.modules
    w.p_switch = c.pick([0.2, 0.5, 0.03])
    w.hosts = c.pick([1, 1, 2, 3])
    watch = Watch(w)
    projects = []
    for d in range(c.integer(1, 3)):
        pr = Project(w, c, D=d, A=c.integer(1, 3), N=c.integer(1, 3))
        pr.write_models()
        pr.versions = {"vib": [parse(pr.vib_text, False)],
                       "har": [], "rho": [parse(pr.rho_text, True)]}
        pr.done = False
        for kind, path, absent in (("vib", pr.vib_path, False),
                                   ("har", pr.data + "parameters/harmonic_model.json", True),
                                   ("rho", pr.rho_path, False)):
            def check(raw, label, pr=pr, kind=kind, path=path):
                try:
                    got = parse(raw.decode(), kind != "vib")
                except UnicodeDecodeError:
                    got = None
                name = os.path.basename(path)
                need(got is not None, "partial-file",
                     f"data set {pr.D}: {name} is not a complete model (at {label})")
                need(any(equal(v, got) for v in pr.versions[kind]), "wrong-model",
                     f"data set {pr.D}: {name} is none of the {len(pr.versions[kind])} models its "
                     f"operator files state (at {label}): {difference(pr.versions[kind][-1:], got)}")
            watch.add(path, check, absent)
        projects.append(pr)

    # operator files: in place, arriving, or cut short
    jobs = []
    for k in range(c.integer(1, 4)):
        pr = c.pick(projects)
        A, N = (c.integer(1, 4), c.integer(1, 3)) if c.chance(95) else \
            c.pick([(11, 1), (10, 2), (1, 10), (2, 11)])
        text, mod = operator(c, A, N, 31 * k)
        mod = {**mod}
        how = c.pick(["whole", "whole", "whole", "cut", "arriving", "missing", "empty"])
        x = {"pr": pr, "text": text, "model": mod, "how": how, "k": k,
             "path": f"{pr.data}electronic_structure/mol{k}_vibron.op",
             "then": c.pick(["", "", "harmonic", "sampling"])}
        end = text.index("end-parameter-section") + len("end-parameter-section")
        if how == "whole" or how == "arriving":
            pr.versions["vib"].append(mod)
            if how == "whole":
                write_text(x["path"], text)
        elif how == "cut":
            x["cut"] = c.integer(1, end - 1)
            write_text(x["path"], text[:x["cut"]])
        elif how == "empty":
            write_text(x["path"], "")
        jobs.append(x)
    for pr in projects:
        for v in list(pr.versions["vib"]):
            pr.versions["har"].append(diag_of(v))
            pr.versions["rho"].append(diag_of(v))

    def create(x):
        pr = x["pr"]
        FS = pr.FS()
        what = f"data set {pr.D}, operator file {x['k']} ({x['how']})"
        x["started"] = True
        if x["again"]:
            write_text(x["path"], x["text"])
            w.probe("operator_file_replaced")
        try:
            m.vIO.create_coupling_from_op_file(FS, x["path"])
        except (Violation, HarnessError, SimCrash, NameError):
            raise
        except Exception as e:
            x["error"] = e
            w.note("refused", None, f"{what}: {type(e).__name__}")
            return
        need(x["how"] in ("whole", "arriving"), "incomplete-file-accepted",
             f"{what}: a model was created from {x.get('cut', 0)} of {len(x['text'])} characters")
        x["ok"] = True
        if single[id(pr)]:
            got = parse(read_text(pr.vib_path), False)
            need(equal(x["model"], got), "wrong-model",
                 f"{what}: {x['model'][K.K_A]} states, {x['model'][K.K_N]} modes: "
                 f"{difference([x['model']], got)}")
            w.probe("model_compared")
            h = m.vIO.create_model_hash(FS=FS)
            need(h == sha512(read_text(pr.vib_path)), "wrong-hash", f"{what}: hash of the model")
        try:
            if x["then"]:
                m.vIO.create_harmonic_model(FS)
            if x["then"] == "sampling":
                m.vIO.create_basic_diagonal_model(FS)
        except (Violation, HarnessError, SimCrash, NameError):
            raise
        except Exception as e:
            x["error"] = e
            return
        if x["then"] and single[id(pr)]:
            for kind, path in (("har", FS.path_har_model), ("rho", FS.path_rho_model)):
                if kind == "rho" and x["then"] != "sampling":
                    continue
                need(equal(diag_of(x["model"]), parse(read_text(path), True)), "wrong-diagonal",
                     f"{what}: {os.path.basename(path)} is not the diagonal of the model")
                w.probe("diagonal_compared")

    parts = c.integer(1, min(3, len(jobs)))
    groups = [jobs[i::parts] for i in range(parts)]
    # a data set that only one process works on
    single = {id(pr): sum(any(x["pr"] is pr for x in g) for g in groups) <= 1 for pr in projects}
    # some operator files take the place of one that the same process has read before
    for g in groups:
        for i, x in enumerate(g):
            before = [y for y in g[:i] if y["how"] == "whole"]
            x["again"] = bool(x["how"] == "whole" and before and c.chance(50))
            if x["again"]:
                x["path"] = c.pick(before)["path"]

    def program(group):
        for x in group:
            create(x)

    def deliver(x):
        """somebody copies the operator file into place"""
        src = f"{w.path()}/incoming{x['k']}.op"
        write_text(src, x["text"])
        with open(src, "rb") as a, open(x["path"], "wb") as b:
            while True:
                part = a.read(max(1, len(x["text"]) // 4))
                if not part:
                    break
                b.write(part)
                b.flush()
        x["delivered"] = True
    for x in jobs:
        if x["how"] == "arriving":
            w.spawn(f"copy{x['k']}", lambda x=x: deliver(x))
    tasks = [w.spawn(f"create{k}", lambda g=g: program(g)) for k, g in enumerate(groups)]
    for t in tasks:
        t.proc.out = []
    victim = None
    if c.chance(50):
        victim = c.pick(tasks)
        if c.chance(55):
            victim.proc.crash_at = c.integer(1, 25 * len(jobs))
        else:
            victim.proc.faults = swarm_io(c, ["write_error", "short_write", "open_error",
                                              "meta_error", "read_error"], 0.06, 60)
    w.run()
    io = any(w.faults_fired.get(k) for k in ("write_error", "open_error", "meta_error",
                                             "read_error"))
    for t in tasks:
        if ended(t):
            need(t is victim and io, "unexpected-failure", f"creating models: {describe(t.exc)}")
    for x in jobs:
        if x.get("error") is not None and x["how"] == "whole" and not (io and victim):
            raise Violation("unexpected-failure",
                            f"operator file {x['k']} ({x['how']}): {describe(x['error'])}")
    watch.look(w, "the end")
    # once nothing disturbs it, every complete file can be used
    for x in jobs:
        if x["how"] in ("whole", "arriving"):
            pr = x["pr"]
            if x["how"] == "whole":
                write_text(x["path"], x["text"])
            last = w.spawn(f"last{x['k']}", lambda pr=pr, x=x:
                           m.vIO.create_coupling_from_op_file(pr.FS(), x["path"]))
            last.proc.out = []
            w.run()
            w.check_task(last, "creating a model from a complete operator file")
            got = parse(read_text(pr.vib_path), False)
            need(equal(x["model"], got), "wrong-model",
                 f"data set {pr.D}, operator file {x['k']}, {x['model'][K.K_A]} states, "
                 f"{x['model'][K.K_N]} modes: {difference([x['model']], got)}")
    n = sum(bool(x.get("ok")) for x in jobs)
    return {"nontrivial": len(jobs) > 1,
            "desc": f"{len(jobs)} operator files ({', '.join(x['how'] for x in jobs)}), "
                    f"{len(projects)} data sets, {parts} processes, {n} models created"}


def difference(versions, got):
    if not versions or got is None:
        return "nothing to compare"
    v = versions[-1]
    if (v[K.K_A], v[K.K_N]) != (got[K.K_A], got[K.K_N]):
        return f"{got[K.K_A]} states and {got[K.K_N]} modes"
    for k in (K.K_W,) + ORDERS:
        if v[k].shape != got[k].shape:
            return f"{k} has shape {got[k].shape}"
        d = np.argwhere(v[k] != got[k])
        if len(d):
            i = tuple(int(q) for q in d[0])
            return f"{k}{list(i)} is {got[k][i]!r}, the file states {v[k][i]!r}"
    return "no difference"
