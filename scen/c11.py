"""C11 - the directory structure: complete, shared safely, and consistent after a switch."""
from .common import *

ID = "C11"
MAX_STEPS = 20000
SUB = ("parameters", "results", "execution_output", "plots")


def expected_dirs(root, D, R):
    out = [f"{root}/data_set_{D}", f"{root}/data_set_{D}/electronic_structure",
           f"{root}/data_set_{D}/rho_{R}"]
    for s in SUB:
        out += [f"{root}/data_set_{D}/{s}", f"{root}/data_set_{D}/rho_{R}/{s}"]
    return out


def members(FS):
    """every path, template and id a user reads off the object"""
    out = {}
    for k, v in vars(FS).items():
        if isinstance(v, str) and (k.startswith("path_") or k.startswith("template_")):
            out[k] = os.path.normpath(v) if k.startswith("path_") else v
        elif k in ("id_rho", "id_data"):
            out[k] = v
    return out


def check_paths(FS, root, D, R, what):
    base, rho = f"{root}/data_set_{D}", f"{root}/data_set_{D}/rho_{R}"
    want = {"path_data": base, "path_rho": rho, "path_es": base + "/electronic_structure",
            "path_vib_model": base + "/parameters/coupled_model.json",
            "path_rho_model": rho + "/parameters/sampling_model.json",
            "path_analytic_rho": rho + "/parameters/analytic_results.json",
            "path_analytic_vib": base + "/parameters/analytic_results.json",
            "path_orig_model": base + "/parameters/original_coupled_model.json",
            "path_har_model": base + "/parameters/harmonic_model.json"}
    for s, d in (("params", "parameters"), ("results", "results"),
                 ("output", "execution_output"), ("plots", "plots")):
        want["path_vib_" + s] = f"{base}/{d}"
        want["path_rho_" + s] = f"{rho}/{d}"
    owner = {}
    for k, v in vars(FS).items():
        if isinstance(v, str) and k.startswith(("path_", "template_")):
            v = os.path.normpath(v)
            need(v == root or v == base or v.startswith(base + "/"), "wrong-path",
                 f"{what}: {k} is {v}, which is outside of the data set")
            need(v not in owner, "wrong-path", f"{what}: {k} and {owner.get(v)} are both {v}")
            owner[v] = k
    for k, v in want.items():
        have = getattr(FS, k)
        need(os.path.normpath(have) == os.path.normpath(v), "wrong-path",
             f"{what}: {k} is {have}, expected {v}")
    need(FS.id_data == D and FS.id_rho == R, "wrong-path",
         f"{what}: ids are {FS.id_data}/{FS.id_rho}, expected {D}/{R}")
    have = FS.template_pimc.format(P=7, T=30.0, J="5")
    need(os.path.normpath(have) == f"{rho}/results/P7_T30.00_J5_data_points.npz", "wrong-path",
         f"{what}: a pimc result would be {have}")
    have = FS.template_jackknife.format(P=7, T=30.0, X=5)
    need(os.path.normpath(have) == f"{rho}/results/P7_T30.00_X5_thermo", "wrong-path",
         f"{what}: a thermo file would be {have}")
    have = FS.template_sos_rho.format(B=12)
    need(os.path.normpath(have) == f"{rho}/parameters/sos_B12.json", "wrong-path",
         f"{what}: an sos file would be {have}")


def scenario(w, c):
    m = env.modules
    w.p_switch = c.pick([0.3, 0.1, 0.7])
    w.hosts = c.pick([1, 1, 2, 3])
    root = w.path("work", "pimc")
    REAL["os.makedirs"](root) if "os.makedirs" in REAL else os.makedirs(root)
    # what is already there must survive
    keep = {}
    if c.chance(60):
        for D in (0, 1):
            for R in (0, 1):
                if c.chance(50):
                    p = f"{root}/data_set_{D}/rho_{R}/results/P3_T300.00_J{D}_data_points.npz"
                    write_text(p, f"precious {D} {R}")
                    keep[p] = f"precious {D} {R}"
                    p = f"{root}/data_set_{D}/parameters/coupled_model.json"
                    write_text(p, f"model {D}")
                    keep[p] = f"model {D}"
                    p = f"{root}/data_set_{D}/rho_{R}/parameters/sampling_model.json"
                    write_text(p, f"rho {D} {R}")
                    keep[p] = f"rho {D} {R}"
    # some rho directories exist only in part
    for D in (0, 1):
        if c.chance(30):
            os.makedirs(f"{root}/data_set_{D}/rho_1/{c.pick(SUB)}", exist_ok=True)
    faulty = c.chance(40)
    tasks = []

    def dirs(FS, D, R, what):
        for d in expected_dirs(root, D, R):
            need(os.path.isdir(d), "missing-directory",
                 f"{what}: {d.replace(root, '')} does not exist")

    def listing():
        return sorted(x for x, _, _ in os.walk(root))

    def user(k, plan):
        FS = None
        for op, D, R in plan:
            what = f"user{k} {op} data_set_{D} rho_{R}"
            if op == "new":
                FS = m.fs.FileStructure(root, D, R)
                dirs(FS, D, R, what)
                check_paths(FS, root, D, R, what)
                need(FS.directories_exist() is True, "wrong-answer",
                     f"{what}: directories_exist() is not True although they do")
            elif op == "plain":
                before = listing() if solo else None
                FS = m.fs.FileStructure(root, D, R, no_makedir=True)
                if solo:
                    need(listing() == before, "unwanted-directory",
                         f"{what}: no_makedir was given but directories appeared")
                    there = all(os.path.isdir(d) for d in expected_dirs(root, D, R))
                    need(FS.directories_exist() is there, "wrong-answer",
                         f"{what}: directories_exist() is {FS.directories_exist()}, "
                         f"{'all' if there else 'not all'} of them exist")
                check_paths(FS, root, D, R, what)
            elif op == "change" and FS is not None:
                D = FS.id_data
                FS.change_rho(R)
                fresh = m.fs.FileStructure(root, D, R, no_makedir=True)
                a, b = members(FS), members(fresh)
                bad = sorted(x for x in b if a.get(x) != b[x])
                need(not bad, "stale-member",
                     f"{what}: after change_rho {bad[0] if bad else ''} is "
                     f"{a.get(bad[0]) if bad else ''}, a new object has {b[bad[0]] if bad else ''}")
                for s in SUB:
                    need(os.path.isdir(f"{root}/data_set_{D}/rho_{R}/{s}"), "missing-directory",
                         f"{what}: rho_{R}/{s} does not exist after change_rho")
                check_paths(FS, root, D, R, what)
            elif op == "hash" and FS is not None:
                D, R = FS.id_data, FS.id_rho
                v = f"{root}/data_set_{D}/parameters/coupled_model.json"
                r = f"{root}/data_set_{D}/rho_{R}/parameters/sampling_model.json"
                if v in keep and r in keep:
                    FS.generate_model_hashes()
                    need(FS.hash_vib == sha512(keep[v]) and FS.hash_rho == sha512(keep[r]),
                         "stale-hash", f"user{k}: the hashes are not those of data_set_{D} rho_{R}")
                    w.probe("hashes_checked")
                    for hv, hr in ((FS.hash_vib, FS.hash_rho), (FS.hash_vib, sha512("x")),
                                   (FS.hash_rho, FS.hash_rho), (FS.hash_vib, FS.hash_vib),
                                   (FS.hash_vib[:-1], FS.hash_rho + "0")):
                        d = {"hash_vib": hv, "hash_rho": hr}
                        got = (FS.valid_vib_hash(d), FS.valid_rho_hash(d),
                               FS.valid_vib_and_rho_hashes(d))
                        a, b = hv == sha512(keep[v]), hr == sha512(keep[r])
                        need(got == (a, b, a and b), "wrong-answer",
                             f"user{k}: results with hashes {hv[:6]} {hr[:6]} are called current: "
                             f"{got}; the models have {sha512(keep[v])[:6]} {sha512(keep[r])[:6]}")
                    # a model is replaced, and the hashes are generated again
                    if solo and (D + R + len(plan)) % 2:
                        x = v if len(plan) % 3 else r
                        keep[x] = keep[x][:-1] + "*" if (D + R) % 3 else keep[x] + "*"
                        write_text(x, keep[x])
                        FS.generate_model_hashes(force_flag=True)
                        need(FS.hash_vib == sha512(keep[v]) and FS.hash_rho == sha512(keep[r]),
                             "stale-hash", f"user{k}: the hashes generated by force are not those "
                             f"of the models which are in data_set_{D} rho_{R} now")
                        w.probe("hashes_generated_again")
            elif op == "make" and FS is not None:
                FS.make_rho_directories(R)
                for s in SUB:
                    need(os.path.isdir(f"{root}/data_set_{FS.id_data}/rho_{R}/{s}"),
                         "missing-directory", f"{what}: rho_{R}/{s} was not created")
    n = c.pick([1, 2, 2, 3])
    solo = n == 1
    plans = []
    for k in range(n):
        plan = [(c.pick(["new", "new", "plain"]), c.integer(0, 1), c.integer(0, 2))]
        for _ in range(c.integer(0, 5)):
            plan.append((c.pick(["new", "change", "change", "hash", "hash", "make", "plain"]),
                         c.integer(0, 1), c.integer(0, 2)))
        plans.append(plan)
        t = w.spawn(f"user{k}", lambda k=k, plan=plan: user(k, plan))
        if faulty:
            if c.chance(50):
                t.proc.crash_at = c.integer(1, 40)
            if c.chance(50):
                t.proc.faults = {"meta_error": 0.08}
        tasks.append(t)
    w.run()
    io = w.faults_fired.get("meta_error")
    errors = 0
    for t in tasks:
        if failed(t):
            errors += 1
            if not (io and isinstance(t.exc, OSError)):
                raise Violation("unexpected-failure", f"{t.name}: {describe(t.exc)}")
    for p, text in keep.items():
        need(os.path.isfile(p) and read_text(p) == text, "lost-file",
             f"{p.replace(root, '')} was removed or changed")
    # after the faults: running the same plans again succeeds and completes everything
    if faulty:
        solo = True
        for k, plan in enumerate(plans):
            t = w.spawn(f"again{k}", lambda k=k, plan=plan: user(k, plan))
            w.run()
            w.check_task(t, "after an interruption")
        w.probe("recovered")
    return {"nontrivial": n > 1 or any(len(p) > 1 for p in plans),
            "desc": f"{n} users, {sum(map(len, plans))} operations, {errors} errors"}
