"""C14 - plots show stored values of the current models, and nothing else."""
import itertools as it

from .common import *

ID = "C14"
MAX_STEPS = 40000
KEYS = ["Z", "Z error", "E", "E error", "Cv", "Cv error"]
JK = ["jk_E", "jk_E error", "jk_Cv", "jk_Cv error"]


def ended(t):
    e = t.exc
    if isinstance(e, (NameError, UnboundLocalError)) and __name__ in describe(e):
        raise HarnessError(describe(e))
    return failed(t)


class Shelf:
    """every version of every file, with the steps between which it was in place"""

    def __init__(self, w):
        self.w, self.files = w, {}

    def put(self, path, content, raw=False):
        """at once (before the run, or by a task that just renamed it into place)"""
        self.files.setdefault(path, []).append((self.w.steps, content))

    def seen(self, path, start, end):
        """versions in place at some step of [start, end]; and whether one always was"""
        out, always = [], False
        v = self.files.get(path, [])
        for i, (since, content) in enumerate(v):
            until = v[i + 1][0] if i + 1 < len(v) else 1 << 60
            if since <= end and until >= start:
                out.append(content)
                always = always or since <= start
        return out, always


def publish(w, shelf, path, content):
    """a running task replaces (or adds) a file, as everything in Pibronic does: by a rename"""
    text = content if isinstance(content, str) else json.dumps(content)
    tmp = f"{path}.{w.current_task().name}"
    with open(tmp, "w") as f:
        f.write(text)
    os.rename(tmp, path)
    shelf.put(path, content)


def lay(shelf, path, content):
    write_text(path, content if isinstance(content, str) else json.dumps(content))
    shelf.put(path, content)


def nan(x):
    return float("nan") if x is None else float(x)


def eq(a, b):
    a, b = float(a), float(b)
    return (a != a and b != b) or close(a, b, rel=1e-9)


def scenario(w, c):
    if c.chance(15):
        return grids(w, c)
    m = env.modules
    w.p_switch = c.pick([0.1, 0.02, 0.4])
    shelf = Shelf(w)
    D = c.pick([0, 1, 2, 3, 10, 12, 101])
    what = c.pick(["multi", "multi", "single", "original", "versus", "versus", "references",
                   "versus-sos", "versus-sos"])
    sos = what == "versus-sos"
    if sos and c.chance(60):
        D = c.pick([101, 120])
    n = {"multi": c.integer(1, 3), "references": c.integer(1, 3), "versus": 2,
         "versus-sos": 2}.get(what, 1)
    prs = []
    for i in range(n):
        same_data = what in ("versus", "versus-sos") or c.chance(50)
        other = prs[0] if prs and same_data else None
        pr = Project(w, c, D=D if other or not prs else D + 10 * i, R=(i if other or i == 0
                     else c.integer(0, 2)) if not sos or i == 0 else c.pick([1, 2, 10, 11, 12]), A=2, N=c.integer(1, 2) if other is None else prs[0].N,
                     root=("work", "pimc"))
        if other is not None:
            pr.vib = other.vib
            pr.rho = models.diagonal(c, c.integer(1, 3), pr.N, pr.vib[models.K_W])
        pr.write_models()
        prs.append(pr)
    if what in ("versus", "versus-sos") and c.chance(30):
        prs.reverse()
    # versions of the models: 0 is in place, others were or will be
    texts, hashes = {}, {}

    def versions(path, text):
        """three texts of the same model: the current, an older one, a coming one"""
        if path not in texts:
            out = [text]
            for v in (1, 2):
                d = json.loads(text)
                d["energies"] = (np.array(d["energies"]) * (1 + 0.01 * v)).tolist()
                out.append(json.dumps(d))
            texts[path], hashes[path] = out, [sha512(t) for t in out]
            shelf.put(path, out[0])
    for pr in prs:
        versions(pr.vib_path, read_text(pr.vib_path))
        versions(pr.rho_path, read_text(pr.rho_path))

    def stamp(pr, v, r):
        return {"hash_vib": hashes[pr.vib_path][v], "hash_rho": hashes[pr.rho_path][r]}

    def number():
        return c.real(0.1, 50.0)

    def stored():                 # any value may be computed, an exact zero too
        return 0.0 if c.chance(4) else number()

    def thermo_content(pr, v, r, partial=0):
        keys = KEYS + (JK if c.chance(50) else [])
        d = {k: stored() for k in keys}
        d.update(stamp(pr, v, r))
        for k in (("hash_vib",), ("hash_rho",), ("hash_vib", "hash_rho"))[:partial][-1:]:
            for x in k:
                d.pop(x)
        return d
    single_T = what in ("single", "original", "versus", "versus-sos") and c.chance(65)
    Ts = [c.pick([300.0, 250.5, 1300.0])] if single_T else c.subset([300.0, 250.5, 77.25, 1300.0]) \
        or [300.0]
    Ps = c.subset([3, 4, 13, 30, 100]) or [12]
    Xs = c.subset([2, 10, 99, 1000, 12345]) or [7]
    if sos:                               # this figure is of 10000 samples
        Xs = [x for x in Xs if x < 1000] + [10000] + [x for x in Xs if x > 1000]
    slots = []
    for pr in prs:
        done = c.subset(Ts) if n > 1 and c.chance(50) else Ts     # not all were calculated
        for P in Ps:
            for T in Ts:
                for X in Xs:
                    path = f"{pr.results}P{P:d}_T{T:.2f}_X{X:d}_thermo"
                    slots.append((pr, path))
                    if T in done and c.chance(75):
                        kind = c.pick([0, 0, 0, 0, 1, 2, 3, 4])
                        if kind < 4:
                            v, r = [(0, 0), (1, 0), (0, 1), (1, 1)][kind]
                            lay(shelf, path, thermo_content(pr, v, r))
                        else:
                            lay(shelf, path, thermo_content(pr, 0, 0, c.integer(1, 3)))
        if c.chance(40):
            pr.put_result(Ps[0], Ts[0], 5, np.ones((2, 4)))

    # references
    basis = c.pick([80, 80, 12]) if not sos else 80

    def ref(pr, kind, v, r):
        d = {}
        for T in Ts:
            if kind == "rho":
                d[f"{T:.2f}"] = {"Z_sampling": number(), "E_sampling": number(),
                                 "Cv_sampling": number()}
            elif kind == "orig":
                d[f"{T:.2f}"] = {"Z_coupled": number(), "E_coupled": number()}
            elif kind == "sos":
                d[f"{T:.2f}"] = {"Z_coupled": number(), "Z_sos": number()}
            else:
                d[f"{T:.2f}"] = {k: number() for k in ("Z_trotter", "E_trotter", "SvN_trotter",
                                                       "S2_trotter") if not c.chance(15)}
        if len(Ts) > 1 and c.chance(10):
            d.pop(f"{c.pick(Ts):.2f}")
        d["hash_vib"] = hashes[pr.vib_path][v]
        if kind == "rho":
            d["hash_rho"] = hashes[pr.rho_path][r]
        if c.chance(5):                   # nobody knows of which model
            d.pop(c.pick(["hash_vib", "hash_rho"]), None)
        return d

    def ref_path(pr, kind, P=None):
        return {"rho": pr.rhod + "parameters/analytic_results.json",
                "orig": pr.data + "parameters/original_analytic_results.json",
                "sos": pr.data + f"parameters/sos_B{basis:d}.json",
                "trotter": pr.data + f"parameters/trotter_P{P}_B{basis:d}.json"}[kind]
    laid = set()
    for pr in prs:
        for kind in ("rho", "orig", "sos"):
            path = ref_path(pr, kind)
            if path in laid:
                continue
            laid.add(path)
            if not c.chance(12):
                v, r = (0, 0) if not c.chance(20) else c.pick([(1, 0), (0, 1), (1, 1)])
                lay(shelf, path, ref(pr, kind, v, r))
        for P in Ps:
            path = ref_path(pr, "trotter", P)
            if path not in laid and not c.chance(20):
                laid.add(path)
                lay(shelf, path, ref(pr, "trotter", 0 if not c.chance(20) else 1, 0))

    # others work on the same directories
    busy = c.chance(65)
    if busy:
        for k in range(c.integer(1, 2)):
            plan = []
            for _ in range(c.integer(1, 5)):
                pr, path = c.pick(slots)
                v, r = c.pick([(0, 0), (0, 0), (2, 0), (0, 2), (1, 0)])
                x = c.pick(["thermo", "thermo", "thermo", "vib", "rho", "ref"])
                if x == "thermo":
                    plan.append((path, thermo_content(pr, v, r)))
                elif x == "ref":
                    kind = c.pick(["rho", "orig", "sos", "trotter"])
                    plan.append((ref_path(pr, kind, c.pick(Ps)), ref(pr, kind, v, r)))
                else:
                    p = pr.vib_path if x == "vib" else pr.rho_path
                    plan.append((p, texts[p][2]))
            pause = c.pick([2, 10, 30])

            def others(plan=plan, pause=pause):
                for path, content in plan:
                    for _ in range(w.c.sched(pause, 0.8)):
                        w.point("idle")
                    publish(w, shelf, path, content)
            t = w.spawn(f"analysis{k}", others)
            if c.chance(25):
                t.proc.crash_at = c.integer(1, 15)
    faults = swarm_io(c, ["short_read", "read_error", "open_error"], 0.03) if c.chance(20) else {}
    cls = {"multi": m.pl.plot_Z_multiple_FS, "references": m.pl.plot_Z_multiple_FS,
           "single": m.pl.plot_Z_test, "original": m.pl.plot_original_Z_test,
           "versus": m.pl.plot_original_Z_vs_diagonal_test,
           "versus-sos": m.pl.plot_sos_Z_vs_rho_n}[what]
    w.drawn = []
    times = c.pick([1, 2])
    again = c.chance(25)          # the same object loads twice
    renewed = {}                  # what is computed again between the two looks
    if times == 2 and c.chance(60):
        v, r = c.pick([(2, 0), (0, 2), (2, 2), (0, 0)])
        for pr in prs:
            if v:
                renewed[pr.vib_path] = texts[pr.vib_path][v]
            if r:
                renewed[pr.rho_path] = texts[pr.rho_path][r]
            for kind in ("rho", "orig", "sos"):
                renewed[ref_path(pr, kind)] = ref(pr, kind, v, r)
            for P in Ps:
                renewed[ref_path(pr, "trotter", P)] = ref(pr, "trotter", v, r)
        for pr, path in slots:
            if c.chance(60):
                renewed[path] = thermo_content(pr, v, r)
    seen = {}

    def user():
        for k in range(times):
            if k and renewed:
                t.proc.faults = {}        # it is somebody else who does this
                for path, content in renewed.items():
                    publish(w, shelf, path, content)
                t.proc.faults = faults
            s = {"from": w.steps, "stage": "start", "error": None}
            seen[k] = s
            before = len(w.drawn)
            try:
                FSs = [pr.FS(no_makedir=True) for pr in prs]
                obj = cls(FSs[0] if n == 1 and (what != "multi" or k) else FSs)
                s["stage"], s["obj"] = "loading", obj
                s["hash"] = [(f.hash_vib, f.hash_rho) for f in FSs]
                if what == "references":
                    obj.load_data()
                    for name, load in (("sos", lambda: m.pl.load_sos(obj, basis_size=basis)),
                                       ("orig", lambda: m.pl.load_analytical_original(obj)),
                                       ("rho", lambda: m.pl.load_analytical_sampling(obj)),
                                       ("trotter", lambda: m.pl.load_trotter_coupled(
                                           obj, basis_size=basis))):
                        try:
                            load()
                            s[name] = True
                        except Exception as e:
                            s[name] = e
                else:
                    obj.load_data()
                    if again:
                        obj.load_data()
                s["to"] = w.steps
                s["stage"] = "drawing"
                if what not in ("multi", "references") and len(obj.lst_T[0]) == 1 \
                        and all(len(x) <= 1 for x in obj.lst_T):
                    obj.plot()
                    s["plotted"] = True
                s["stage"] = "done"
            except Exception as e:
                s["error"] = e
                s.setdefault("to", w.steps)
            s["drawn"] = w.drawn[before:]
    t = w.spawn("plotter", user)
    t.proc.faults = faults
    t.proc.out = []
    w.run()
    if ended(t):
        raise HarnessError(describe(t.exc))
    io = any(w.faults_fired.get(k) for k in ("read_error", "open_error"))
    for x in w.tasks:
        if x is not t and failed(x):
            raise HarnessError(f"{x.name}: {describe(x.exc)}")
    for k in range(times):
        judge(w, c, what, prs, seen[k], shelf, hashes, (Ps, Ts, Xs), ref_path, io)
    return {"nontrivial": len(slots) > 1,
            "desc": f"{what} of {n}: {len(Ps)}x{len(Ts)}x{len(Xs)}, "
                    f"{'others busy, ' if busy else ''}"
                    f"{[(s['stage'], str(s['error'])[:60]) for s in seen.values()]}"}


def judge(w, c, what, prs, s, shelf, hashes, sets, ref_path, io):
    Ps, Ts, Xs = sets
    a, b = s["from"], s["to"]

    def slot(pr, P, T, X):
        return f"{pr.results}P{P:d}_T{T:.2f}_X{X:d}_thermo"
    e = s["error"]
    if isinstance(e, (Violation, HarnessError)):
        raise e
    if s["stage"] == "start":
        # legitimate only if there may have been nothing to plot
        if io:
            return
        steady = all(len(shelf.seen(p, a, b)[0]) == 1 for pr in prs
                     for p in (pr.vib_path, pr.rho_path))
        if steady and what != "single":
            for pr in prs:
                h = current(shelf, hashes, pr, a, b)[0]
                for P in Ps:
                    for T in Ts:
                        for X in Xs:
                            v, always = shelf.seen(slot(pr, P, T, X), a, b)
                            need(not (always and all((d.get("hash_vib"), d.get("hash_rho")) == h
                                                     for d in v)), "unexpected-failure",
                                 f"nothing was plotted although there are results: {describe(e)}")
        elif steady:
            raise Violation("unexpected-failure", describe(e))
        w.probe("nothing_to_plot")
        return
    obj = s["obj"]
    for pr, h in zip(prs, s["hash"]):
        need(h[0] in current(shelf, hashes, pr, a, b, "vib")
             and h[1] in current(shelf, hashes, pr, a, b, "rho"), "wrong-stamp",
             "results were selected by the hashes of models that were not in place")
    flat = what in ("single", "original")
    # what can have been loaded
    can = {}
    for i, pr in enumerate(prs):
        for P in Ps:
            for T in Ts:
                for X in Xs:
                    v, always = shelf.seen(slot(pr, P, T, X), a, b)
                    good = [d for d in v if (d.get("hash_vib"), d.get("hash_rho")) == s["hash"][i]]
                    can[i, P, T, X] = (good, always and len(good) == len(v))

    def refs(i, kind, T, P=None):
        """entries of the reference file that are of the models of the plot"""
        v, always = shelf.seen(ref_path(prs[i], kind, P), a, b)
        good = [d for d in v if d.get("hash_vib") == s["hash"][i][0]
                and (kind != "rho" or d.get("hash_rho") == s["hash"][i][1])]
        ok = [d[f"{T:.2f}"] for d in good if f"{T:.2f}" in d]
        return ok, always and len(ok) == len(v)
    percent = what in ("original", "versus", "versus-sos")
    base = "sos" if what == "versus-sos" else "orig"
    loaded_T = [[T for T in Ts if any(can[i, P, T, X][0] for P in Ps for X in Xs)]
                for i in range(len(prs))]
    sure_T = [[T for T in Ts if any(can[i, P, T, X][1] for P in Ps for X in Xs)]
              for i in range(len(prs))]
    if s["stage"] == "loading":
        if io:
            return
        lacking = percent and any(not refs(i, kind, T)[1] for i in range(len(prs))
                                  for T in loaded_T[i] or Ts for kind in ("rho", base))
        need(lacking, "unexpected-failure", f"loading: {describe(e)}")
        w.probe("reference_refused")
        return
    if percent:
        for i in range(len(prs)):
            for T in sure_T[i]:
                for kind in ("rho", base):
                    need(refs(i, kind, T)[0], "stale-reference",
                         f"T={T}: results are compared with the {kind} values of another model")
    arrs = [obj.arr] if flat else obj.arr

    def transformed(d, key, i, T):
        """the values key may have in the plot when it comes from file content d"""
        x = nan(d.get(key))
        if not percent or key not in ("Z", "Z error"):
            return [x]
        out = []
        for r in refs(i, "rho", T)[0]:
            for o in refs(i, base, T)[0]:
                y = x * r["Z_sampling"]
                if key == "Z":
                    y -= o["Z_coupled"]
                out.append(100.0 * y / o["Z_coupled"])
        return out
    for i in range(len(prs)):
        for (P, T, X) in [k[1:] for k in can if k[0] == i]:
            good, must = can[i, P, T, X]
            have = None
            if P in obj.lst_P[i] and T in obj.lst_T[i] and X in obj.lst_X[i]:
                have = arrs[i][obj.lst_P[i].index(P), obj.lst_T[i].index(T), obj.lst_X[i].index(X)]
            label = f"{what}: P={P} T={T} X={X} of rho_{prs[i].R}"
            if have is None or all(have[k] != have[k] for k in KEYS + JK):
                need(not must, "missing-point", f"{label} is not in the plot")
                continue
            for d in good:
                if all(any(eq(have[k], x) for x in transformed(d, k, i, T)) for k in KEYS + JK):
                    break
            else:
                raise Violation("wrong-point", f"{label}: Z = {have['Z']!r} is not what the "
                                f"{len(good)} stored values of its models give "
                                f"{[transformed(d, 'Z', i, T) for d in good]}")
        for name in ("lst_P", "lst_T", "lst_X"):
            v = list(getattr(obj, name)[i])
            need(v == sorted(v), "wrong-order", f"{name} of the plot is not sorted: {v}")
        extra = [x for x in obj.lst_T[i] if x not in Ts] + [x for x in obj.lst_P[i] if x not in Ps] \
            + [x for x in obj.lst_X[i] if x not in Xs]
        need(not extra, "alien-point", f"{extra} were never stored")
    if what == "references":
        references(w, prs, s, refs, Ts, io)
    if s["stage"] == "drawing":
        lacking = what == "versus-sos" and any(x and 10000 not in x for x in obj.lst_X)
        need(io or lacking, "unexpected-failure", f"drawing: {describe(e)}")
    if s["stage"] == "done" and what in ("single", "original", "versus", "versus-sos") \
            and (s["drawn"] or s.get("plotted")):
        drawn(w, what, prs, s, arrs, obj)


def current(shelf, hashes, pr, a, b, which=None):
    v = [sha512(x) for x in shelf.seen(pr.vib_path, a, b)[0]]
    r = [sha512(x) for x in shelf.seen(pr.rho_path, a, b)[0]]
    return v if which == "vib" else r if which == "rho" else [(x, y) for x in v for y in r]


def references(w, prs, s, refs, all_Ts, io):
    obj = s["obj"]
    for kind, attr in (("sos", "sos_list"), ("orig", "analytical_orig_list"),
                       ("rho", "analytical_rho_list")):
        Ts = [list(x) for x in obj.lst_T]
        if s[kind] is not True:
            lacking = any(not refs(i, kind, T)[1] for i in range(len(prs))
                          for T in Ts[i] or all_Ts)
            need(io or lacking, "unexpected-failure", f"{kind}: {describe(s[kind])}")
            w.probe("reference_refused")
            continue
        for i in range(len(prs)):
            for T in Ts[i]:
                ok = refs(i, kind, T)[0]
                got = getattr(obj, attr)[i][f"{T:.2f}"]
                need(any(got == x for x in ok), "stale-reference",
                     f"{kind} of rho_{prs[i].R} of data set {prs[i].D} at T={T}: the values are "
                     f"not those stored for its models ({len(ok)} are)")
    if s["trotter"] is not True:
        need(io, "unexpected-failure", f"trotter: {describe(s['trotter'])}")
        return
    for i in range(len(prs)):
        for T in obj.lst_T[i]:
            got = obj.trotter_coupled_list[i][f"{T:.2f}"]
            for j, P in enumerate(obj.lst_P[i]):
                ok, sure = refs(i, "trotter", T, P)
                for k in ("Z_trotter", "E_trotter", "SvN_trotter", "S2_trotter"):
                    x = got[k][j]
                    if x != x:
                        need(io or not sure or any(k not in d for d in ok), "missing-reference",
                             f"trotter {k} at P={P} T={T} was stored and is not there")
                    else:
                        need(any(eq(x, nan(d.get(k))) for d in ok), "stale-reference",
                             f"trotter {k} at P={P} T={T}: {x!r} is not of its models")


def drawn(w, what, prs, s, arrs, obj):
    """the figures hold exactly the loaded values"""
    w.probe("figure_checked")
    names = {os.path.basename(p) for p, _ in s["drawn"]}
    need(len(names) == len(s["drawn"]), "overwritten-figure", f"two figures in one file: {names}")
    keys = ["Z", "E", "Cv"] if what == "single" else ["Z"]
    need(len(s["drawn"]) == len(keys), "missing-figure", f"{len(s['drawn'])} figures of {keys}")
    for key, (path, fig) in zip(keys, s["drawn"]):
        a = prs[0]
        want = {"single": f"{a.rhod}plots/{key}_D{a.D:d}_R{a.R:d}.pdf",
                "original": f"{a.rhod}plots/Z_orig_D{a.D:d}_R{a.R:d}.pdf",
                "versus": f"{a.data}plots/Z_orig_D{a.D:d}_R{a.R:d}_R{prs[-1].R:d}.pdf",
                "versus-sos": f"{a.data}plots/Z_sos_D{a.D:d}_R{a.R:d}_R{prs[-1].R:d}.pdf"}[what]
        need(os.path.normpath(path) == os.path.normpath(want), "wrong-figure",
             f"a figure of {key} of data set {a.D}, rho {[p.R for p in prs]} was stored as {path}")
        curves = []
        pair = what in ("versus", "versus-sos")
        inset = pair and a.D >= (10 if what == "versus" else 100)
        for part in ("all", "last") if inset else ("all",):
            for i in range(len(prs)):
                if not obj.lst_T[i]:
                    continue
                T = obj.lst_T[i][0]
                Xs = obj.lst_X[i]
                if pair:
                    Xs = Xs[-1:] if what == "versus" else [10000]
                for X in Xs:
                    v = arrs[i][:, 0, obj.lst_X[i].index(X)]
                    tau = [1.0 / (models.BOLTZMAN * T) / P for P in obj.lst_P[i]]
                    who = rf"(id\_rho={prs[i].R:d})" if pair else f"(T={T:.2f}K)"
                    k = -1 if part == "last" else 0
                    curves.append(((f"(X={X:.1E})", who), tau[k:], list(v[key])[k:],
                                   list(v[key + " error"])[k:]))
        need(what == "single" or (fig["levels"] and set(fig["levels"]) == {0.0}), "wrong-figure",
             f"{os.path.basename(path)}: the line of the reference is at {fig['levels']}")
        need(len(curves) == len(fig["curves"]), "wrong-figure",
             f"{os.path.basename(path)}: {len(fig['curves'])} curves instead of {len(curves)}")
        for (tag, x, y, err), (label, fx, fy, ferr) in zip(curves, fig["curves"]):
            same = (all(t in label for t in tag) and len(x) == len(fx) == len(fy) == len(ferr)
                    and all(eq(p, q) for p, q in zip(x, fx))
                    and all(eq(p, q) for p, q in zip(y, fy))
                    and all(q != q or close(p, q, rel=1e-6, abs_=1e-7 * (1 + abs(r)))
                            for p, q, r in zip(err, ferr, y)))
            need(same, "wrong-figure", f"{os.path.basename(path)}: curve {label!r} is "
                 f"{fx}, {fy} +- {ferr}; the loaded values are {x}, {y} +- {err}")


def grids(w, c):
    """pictures of the energies and couplings of the original and the coupled model"""
    m = env.modules
    pr = Project(w, c, D=c.integer(0, 12), A=c.integer(1, 4), N=c.integer(1, 3), quadratic=True)
    pr.write_models()
    shelf = Shelf(w)
    orig_path = pr.data + "parameters/original_coupled_model.json"

    tiny, lopsided = c.chance(40), c.chance(40)
    faint = {k: c.pick([0.0, 1e-5, -1e-7, -1e-13, 3e-4])
             for k in (models.K_E, models.K_G1, models.K_G2)}

    def variant(f):
        d = json.loads(pr.vib_text)
        for k in list(d):
            if k not in ("number of surfaces", "number of modes", "frequencies"):
                x = np.array(d[k]) * f
                if tiny and k in faint:           # some element between two surfaces
                    x[..., 0, -1] = x[..., -1, 0] = faint[k]
                if lopsided and k == models.K_G2:
                    for j, l in it.combinations(range(pr.N), 2):
                        x[j, l] *= -0.5
                d[k] = x.tolist()
        return json.dumps(d)
    there = not c.chance(10)
    if there:
        lay(shelf, orig_path, variant(1.5))
    shelf.put(pr.vib_path, pr.vib_text)
    w.drawn = []
    if c.chance(60):
        t = w.spawn("editor", lambda: [publish(w, shelf, p, variant(f)) for p, f in
                                       ((orig_path, -2.0), (pr.vib_path, 3.0))])
        t.proc.crash_at = c.integer(1, 12) if c.chance(30) else None
    kinds = c.shuffled(["energy", "linear_coupling", "quadratic_coupling"])[:c.integer(1, 3)]
    s = {}

    def user():
        obj = m.gp.plotGrids(pr.FS(no_makedir=True))
        s["from"] = w.steps
        obj.load_data()
        s["to"] = w.steps
        for k in kinds:
            getattr(obj, f"plot_{k}")()
    t = w.spawn("plotter", user)
    t.proc.out = []
    w.run()
    desc = f"grids {kinds}"
    have = {k for x in shelf.files for _, text in shelf.files[x] for k in json.loads(text)}
    if ended(t):
        key = {"energy": "energies", "linear_coupling": "linear couplings",
               "quadratic_coupling": "quadratic couplings"}
        need(not there or any(key[k] not in have for k in kinds), "unexpected-failure",
             describe(t.exc))
        return {"nontrivial": True, "desc": desc + ": refused"}
    a, b = s["from"], s["to"]
    old = [json.loads(x) for x in shelf.seen(orig_path, a, b)[0]]
    new = [json.loads(x) for x in shelf.seen(pr.vib_path, a, b)[0]]
    figs = {os.path.basename(p): f for p, f in w.drawn}
    need(len(figs) == len(w.drawn), "overwritten-figure", f"two figures in one file: {sorted(figs)}")
    w.probe("grids_checked")

    def expect(name, candidates):
        need(name in figs, "missing-figure", f"there is no {name}: {sorted(figs)}")
        images = figs[name]["images"]
        shown = [np.array(x) for x in candidates if len(images) == 1 and np.allclose(
            images[0], np.array(x), rtol=1e-12, atol=0)]
        need(shown, "wrong-figure", f"{name} does not show the stored values")
        # the sign of each element is written on it
        texts = figs[name]["texts"]
        signs = {(x, y): t for x, y, t in texts if t in ("+", "-", "0")}
        want = {(x, y): "+" if v > 0 else "-" if v < 0 else "0" for (x, y), v in
                np.ndenumerate(shown[0])}
        need(signs == want and len(texts) == len(want), "wrong-figure",
             f"{name}: the signs are {texts}; the values {shown[0].tolist()}")
    for side, docs in (("original", old), ("coupled", new)):
        if "energy" in kinds:
            expect(f"{side}_energy_grid_D{pr.D:d}.pdf", [d["energies"] for d in docs])
        for j in range(pr.N if "linear_coupling" in kinds else 0):
            expect(f"{side}_linear_grid_D{pr.D:d}_N{j + 1:d}.pdf",
                   [d["linear couplings"][j] for d in docs])
        for j in range(pr.N if "quadratic_coupling" in kinds else 0):
            for l in range(pr.N):
                expect(f"{side}_quadratic_grid_D{pr.D:d}_N{j + 1:d}_N{l + 1:d}.pdf",
                       [d["quadratic couplings"][j][l] for d in docs])
    return {"nontrivial": True, "desc": desc}
