"""C18 - what is found in a data set is exactly what lies in it."""
from .common import *

ID = "C18"
MAX_STEPS = 40000


class Shelf:
    """every file that is put into or taken out of the data sets, with the steps of the changes"""

    def __init__(self, w):
        self.w = w
        self.life = {}          # path -> [(from, to or None)]

    def put(self, path, data, good):
        """appears as a whole, like the files of the code under test"""
        l = self.life.setdefault(path, [])
        if not l or l[-1][1] is not None or l[-1][2] != good:
            if l and l[-1][1] is None:
                l[-1][1] = self.w.steps
            l.append([self.w.steps, None, good])
        tmp = os.path.join(self.w.path("staging"), "x")
        with REAL["open"](tmp, "wb") as f:
            f.write(data)
        REAL["os.replace"](tmp, path)

    def take(self, path):
        REAL["os.unlink"](path)
        self.life[path][-1][1] = self.w.steps

    def throughout(self, a, b, good=False):
        """the paths that were there (and current) the whole time"""
        return {p for p, l in self.life.items()
                if any((x < a or x == 0) and (y is None or y > b) and (g or not good) for x, y, g in l)}

    def sometime(self, a, b, good=False):
        return {p for p, l in self.life.items()
                if any(x <= b and (y is None or y >= a) and (g or not good) for x, y, g in l)}


def npz_bytes(**arrays):
    import io
    b = io.BytesIO()
    np.savez(b, **arrays)
    return b.getvalue()


def scenario(w, c):
    m = env.modules
    w.p_switch = c.pick([0.3, 0.7, 0.05])
    os.makedirs(w.path("staging"))
    pr = Project(w, c, D=c.pick([0, 1, 11]), R=c.pick([0, 1, 2]),
                 root=None if c.chance(75) else
                 ("P7_T55.00_J3_data_points", "trotter_P6_B3_X9_thermo"))
    pr.write_models()
    shelf = Shelf(w)
    other = Project(w, c, D=pr.D + c.pick([1, 10]), R=pr.R, root=pr.root[len(w.path("")):].split("/"))
    other.write_models()
    info = {}                   # path -> (kind, P, T, J or X or B)
    Ts = [c.pick([300.0, 250.0, 77.25, 1.5, 1000.0, round(c.real(1, 2000), 2)]) for _ in range(2)]
    if c.chance(30):        # numbers that start or end with each other
        Ts[1] = c.pick([round(Ts[0] + 0.5, 2), round(Ts[0] * 10, 2), round(Ts[0] + 1000, 2),
                        round(Ts[0] + 0.01, 2)])
    Ps = [c.pick([1, 2, 5, 12, 50, 100, 500, c.integer(1, 999)]) for _ in range(3)]
    if c.chance(30):
        Ps[1] = c.pick([Ps[0] * 10, Ps[0] + 1000, Ps[0] * 10 + c.integer(1, 9)])
    Bs = [c.pick([4, 8, 10, 80, 100]) for _ in range(3)]

    def pimc(project, current):
        P, T, J = c.pick(Ps), c.pick(Ts), c.pick([0, 1, 2, 10, 11, 123, 41234567, 123456789])
        path = project.results + f"P{P}_T{T:.2f}_J{J}_data_points.npz"
        h = project.hash_vib if current else sha512("old")
        info[path] = ("pimc", P, T, J)
        return path, npz_bytes(hash_vib=h, hash_rho=project.hash_rho, number_of_samples=3,
                               s_rho=np.ones(3), s_g=np.ones(3)), current

    def thermo(project, current):
        P, T, X = c.pick(Ps), c.pick(Ts), c.pick([1, 10, 1000, 123456, 12345678])
        path = project.results + f"P{P}_T{T:.2f}_X{X}_thermo"
        info[path] = ("thermo", P, T, X)
        h = project.hash_rho if current else sha512("old")
        return path, json.dumps({"hash_vib": project.hash_vib, "hash_rho": h}).encode(), current

    def sos(project, current, where=None):
        B = c.pick(Bs)
        where = where or c.pick(["vib", "rho"])
        path = (project.data if where == "vib" else project.rhod) + f"parameters/sos_B{B}.json"
        info[path] = ("sos_" + where, B)
        return path, json.dumps(tables.setdefault(path, table())).encode(), current

    tables = {}

    def table():
        T = c.shuffled(sorted(set(Ts + [12.5, 300.0])))[:c.integer(1, 4)]
        return {"temperature": T, **{k: [round(c.real(0.5, 9), 4) for _ in T] for k in
                                     ("Z_sampling", "E_sampling", "Cv_sampling", "Z_sampling+beta",
                                      "Z_sampling-beta")}}

    def trotter(project, current):
        P, B = c.pick(Ps), c.pick(Bs)
        path = project.data + f"parameters/trotter_P{P}_B{B}.json"
        info[path] = ("trotter", P, B)
        return path, b"{}", current
    def place(project):
        path, data, current = c.pick([pimc, pimc, thermo, sos, sos, trotter])(
            project, c.chance(75))
        shelf.put(path, data, current)
        return path
    for _ in range(c.integer(0, 14)):
        place(pr)
    for _ in range(c.integer(0, 5)):
        place(other)
    # things that are no results, with names that resemble those of results
    for name in c.subset(["P5_T300.00_J1_training_data_input.npz", "D0_R0_P5_T300.00.o17",
                          "P5_T300.00_J1_data_points.npz.tmp", ".P5_T300.00_J1_data_points.npz.x1",
                          "P5_T300.00_X10_thermo.bak", "notes.txt", "P5_T300.00_X10_thermo~"]):
        with REAL["open"](pr.results + name, "w") as f:
            f.write("x")
    for where in (pr.data, pr.rhod):
        for name in c.subset(["sos_B8.json.tmp", "my_sos_B8.txt", "trotter.json"]):
            with REAL["open"](where + "parameters/" + name, "w") as f:
                f.write("x")
    mine = (pr.data, pr.rhod)

    def wanted(kind, paths):
        return {p for p in paths if info[p][0] == kind and p.startswith(mine)}

    def exact(what, got, kind, a, b, keep=lambda p: True, good=False):
        got = [os.path.normpath(p) for p in got]
        need(len(got) == len(set(got)), "found-twice", f"{what}: {sorted(got)}")
        ever = wanted(kind, shelf.sometime(a, b, good))
        always = {p for p in wanted(kind, shelf.throughout(a, b, good)) if keep(p)}
        extra = set(got) - {p for p in ever if keep(p)}
        need(not extra, "found-what-is-not-there", f"{what}: {sorted(extra)}")
        need(always <= set(got), "missed", f"{what}: {sorted(always - set(got))}")
    pp = m.pp

    def look(FS, what):
        a = w.steps
        if what == "lists":
            for f, kind in ((pp.retrive_pimc_file_list, "pimc"),
                            (pp.retrive_jackknife_file_list, "thermo"),
                            (pp.retrive_sos_coupled_file_list, "sos_vib"),
                            (pp.retrive_sos_sampling_file_list, "sos_rho")):
                a = w.steps
                exact(kind, f(FS), kind, a, w.steps)
        elif what == "all":
            got = pp.retrive_all_file_paths(FS)
            for g, kind in zip(got, ("pimc", "thermo", "sos_vib", "sos_rho")):
                exact(f"all: {kind}", g, kind, a, w.steps)
        elif what == "jackknife":
            got = pp.retrive_file_paths_for_jackknife(FS)
            need(len(got) == 3, "missed", "not three lists")
            for g, kind in zip(got, ("pimc", "sos_vib", "sos_rho")):
                exact(f"for the jackknife: {kind}", g, kind, a, w.steps)
        elif what == "basis":
            B = c.pick(Bs)
            for f, kind in ((pp.retrive_sos_coupled_file_list, "sos_vib"),
                            (pp.retrive_sos_sampling_file_list, "sos_rho")):
                a = w.steps
                exact(f"{kind} of basis {B}", f(FS, B=str(B)), kind, a, w.steps,
                      lambda p: info[p][1] == B)
        elif what == "valid":
            P, T = c.pick(Ps), c.pick(Ts)
            exact(f"current results of P={P} T={T}", pp.retrive_valid_pimc_file_list(FS, P, T),
                  "pimc", a, w.steps, lambda p: info[p][1:3] == (P, T), good=True)
        elif what == "prune":
            for f, kind in ((pp.retrive_pimc_file_list, "pimc"),
                            (pp.retrive_jackknife_file_list, "thermo")):
                a = w.steps
                got = pp.prune_results_using_hashes(FS, f(FS))
                exact(f"current {kind}", got, kind, a, w.steps, good=True)
        elif what == "values":
            for p in sorted(wanted("pimc", shelf.life)):
                got = (pp.extract_bead_value_from_pimc_file_path(p),
                       pp.extract_temperature_value_from_pimc_file_path(p),
                       pp.extract_job_value_from_pimc_file_path(p))
                need(got == info[p][1:], "misread-name", f"{p}: {got}")
            for p in sorted(wanted("thermo", shelf.life)):
                got = (pp.extract_bead_value_from_thermo_file_path(p),
                       pp.extract_temperature_value_from_thermo_file_path(p),
                       pp.extract_sample_value_from_thermo_file_path(p))
                need(got == info[p][1:], "misread-name", f"{p}: {got}")
            for k in ("sos_vib", "sos_rho"):
                for p in sorted(wanted(k, shelf.life)):
                    need(pp.extract_basis_value_from_sos_file_path(p) == info[p][1],
                         "misread-name", p)
        elif what == "reference":
            for B in Bs:
                path = os.path.normpath(f"{pr.rhod}/parameters/sos_B{B}.json")
                T, have = c.pick(Ts), {}
                a = w.steps
                try:
                    pp.load_rho_sos_data(FS, c.pick(Ps), B, T, have)
                except (AssertionError, ValueError) as e:
                    need(path not in shelf.throughout(a, w.steps)
                         or T not in tables[path]["temperature"], "missed",
                         f"reference of basis {B} at {T} is there, but: {describe(e)}")
                    need(not have, "found-what-is-not-there", f"refused reference left {have}")
                    continue
                need(path in shelf.sometime(a, w.steps) and T in tables[path]["temperature"],
                     "found-what-is-not-there", f"a reference of basis {B} at {T}: {have}")
                d, i = tables[path], tables[path]["temperature"].index(T)
                Z = d["Z_sampling"][i]
                want = {"Z": Z, "E": d["E_sampling"][i], "Cv": d["Cv_sampling"][i],
                        "alpha_plus": Z / d["Z_sampling+beta"][i],
                        "alpha_minus": Z / d["Z_sampling-beta"][i]}
                need(have.keys() == want.keys() and all(close(have[k], want[k]) for k in want),
                     "found-what-is-not-there", f"reference of basis {B} at {T}: {have} "
                     f"instead of {want}")
                w.probe("references_read")
        elif what == "trotter":
            paths = c.shuffled(sorted(wanted("trotter", shelf.life)))
            got = pp.extract_trotter_paramater_list(paths)
            want = {}
            for p in paths:
                want.setdefault(info[p][2], []).append(info[p][1])
            need({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()},
                 "misread-name", f"beads of each basis: {dict(got)} instead of {want}")
        else:
            paths = c.shuffled(sorted(wanted("pimc", shelf.life)))
            vib = c.shuffled(sorted(wanted("sos_vib", shelf.life)))
            rho = c.shuffled(sorted(wanted("sos_rho", shelf.life)))
            got = pp.extract_parameter_lists(paths, vib, rho)
            want = (sorted({info[p][1] for p in paths}), sorted({info[p][2] for p in paths}),
                    sorted({info[p][1] for p in vib} & {info[p][1] for p in rho}))
            need(tuple(map(list, got)) == want, "misread-name", f"{got} instead of {want}")

    kinds = ["lists", "all", "jackknife", "basis", "valid", "prune", "values", "trotter", "parameters",
             "reference"]
    done = []

    def reader(todo):
        FS = pr.FS()
        FS.generate_model_hashes()
        for what in todo:
            look(FS, what)
            done.append(what)
    if c.chance(30):
        kinds = ["prune", "valid"]
    readers = [w.spawn(f"reader{k}", lambda todo=[c.pick(kinds) for _ in range(c.integer(2, 6))]:
                       reader(todo)) for k in range(c.integer(1, 3))]

    def publisher():
        for _ in range(c.integer(1, 8)):
            w.point("work")
            if c.chance(40):
                # computed again under the same name, from the models in place or from others
                old = sorted(p for p in info if info[p][0] == "pimc" and p.startswith(mine))
                if old:
                    p, now = c.pick(old), c.chance(60)
                    shelf.put(p, npz_bytes(hash_vib=pr.hash_vib if now else sha512("old"),
                                           hash_rho=pr.hash_rho, number_of_samples=2,
                                           s_rho=np.ones(2), s_g=np.ones(2)), now)
                    w.probe("result_replaced")
                continue
            place(c.pick([pr, pr, other]))
    movers = c.chance(60)
    if movers:
        w.spawn("publisher", publisher)
    w.run()
    for t in readers:
        w.check_task(t, "looking for results")
    return {"nontrivial": len(info) > 1 and (movers or len(readers) > 1),
            "desc": f"{len(info)} files, {' '.join(done)}{', others publish' if movers else ''}"}
