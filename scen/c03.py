"""C03 - collating result files conserves samples."""
from functools import partial

from .common import *

ID = "C03"
MAX_STEPS = 40000

TEMPS = [300.0, 300.25, 30.0, 1300.0, 250.0, 300.04]
BEADS = [3, 4, 13, 33, 10]


def rows_for(first, n):
    """samples whose four values identify them: rho=id, g=id+1/8, g+=id+1/4, g-=id+3/8"""
    ids = np.arange(first, first + n, dtype=float)
    return np.stack([ids, ids + 0.125, ids + 0.25, ids + 0.375], axis=1)


def identify(res, pm, what):
    """-> ids of the collated samples; every column must agree on them"""
    cols = [("g", res.scaled_g, 0.125), ("rho", res.scaled_rho, 0.0)]
    if pm:
        cols += [("g+", res.scaled_gofr_plus, 0.25), ("g-", res.scaled_gofr_minus, 0.375)]
    n = int(res.samples)
    base = None
    for name, arr, off in cols:
        arr = np.asarray(arr, dtype=float)
        need(arr.shape == (n,), "wrong-length",
             f"{what}: samples={n} but {name} has shape {arr.shape}")
        need(not np.isnan(arr).any(), "unfilled-samples",
             f"{what}: {int(np.isnan(arr).sum())} of {n} values of {name} were never filled")
        ids = arr - off
        if base is None:
            base = ids
        need(np.array_equal(ids, base), "misaligned-samples",
             f"{what}: values of {name} and g belong to different samples "
             f"({ids[:6].tolist()} vs {base[:6].tolist()})")
    return [float(x) for x in base]


def save(m, pr, cls, P, T, J, n, first, pm):
    """a job saves its n samples"""
    r = cls(X=n)
    r.partial_name = partial(m.fn.pimc().format, P=P, T=T)
    r.path_root = pr.results
    r.id_job = J
    r.hash_vib, r.hash_rho = pr.hash_vib, pr.hash_rho
    rows = rows_for(first, n)
    r.scaled_rho, r.scaled_g = rows[:, 0].copy(), rows[:, 1].copy()
    if pm:
        r.scaled_gofr_plus, r.scaled_gofr_minus = rows[:, 2].copy(), rows[:, 3].copy()
    r.save_results(n)


def scenario(w, c):
    m = env.modules
    pr = Project(w, c)
    pr.write_models()
    pm = not c.chance(25)
    cls = m.engine.BoxResultPM if pm else m.engine.BoxResult
    T = c.pick(TEMPS)
    P = c.pick(BEADS)
    kfiles = c.integer(1, 6) if c.chance(94) else c.integer(10, 24)
    big = c.chance(3)
    next_id = 10 ** 9 if big else 1
    contents = {}              # path -> ids that count for (P, T)
    total = 0
    jid = c.pick([0, 1, 7, 40, 411, 99998, 41234567])
    # clusters hand out ids in many ways; what truncates an id must not take two jobs for one
    stride = c.pick([10, 100, 1000, 10 ** 5, 10 ** 6, 256, 65536, 1 << 20]) if c.chance(40) else None
    for i in range(kfiles):
        n = c.pick([1, 2, 3, 5, 8, 4, 13] if not big else [4, 100, 999, 1500, 4096])
        path = pr.put_result(P, T, jid, rows_for(next_id, n), pm=pm or c.chance(30))
        contents[path] = list(range(next_id, next_id + n))
        next_id += n + 87
        total += n
        jid += c.pick([1, 1, 2, 9]) if stride is None else stride
        while jid in (900, 901, 700, 701):
            jid += 1
    # neighbours that must never leak in
    for i in range(c.integer(0, 3)):
        P2, T2 = c.pick(BEADS), c.pick(TEMPS)
        if (P2, T2) != (P, T):
            pr.put_result(P2, T2, 50 + i, rows_for(5000 + 100 * i, c.integer(1, 4)))
            w.probe("neighbouring_parameters")
    # files that lack part of the data
    bad_ids = set()
    for i in range(c.integer(0, 2)):
        drop = c.pick([("s_g",), ("s_rho",), ("number_of_samples",)] + ([("s_gP",), ("s_gM",)]
                                                                       if pm else []))
        n = c.integer(1, 4)
        path = pr.put_result(P, T, 900 + i, rows_for(8000 + 100 * i, n), drop=drop)
        bad_ids |= set(range(8000 + 100 * i, 8000 + 100 * i + n))
        contents[path] = []
        w.probe("incomplete_file_present")

    how = c.pick(["paths", "template", "paths", "file"])
    desired = None
    if how == "paths" and c.chance(60):
        desired = c.pick([1, 2, 3, 4, total - 1, total, total + 1, total + 7, total // 2])
        desired = max(1, desired)
    w.p_switch = c.pick([0.3, 0.05, 0.7])
    w.hosts = c.pick([1, 1, 2, 3])
    faults = swarm_io(c, ["short_read"], 0.2) if c.chance(30) else {}
    erring = c.chance(20)
    if erring:
        faults["read_error"] = 0.05

    # writers: other jobs that publish results while the collation runs
    late = {}
    writers = []
    if how == "template" and c.chance(70):
        for i in range(c.integer(1, 2)):
            n = c.integer(1, 5)
            first = 20000 + 1000 * i
            J = 700 + i
            crash = c.integer(1, 40) if c.chance(40) else None

            t = w.spawn(f"job{J}", lambda J=J, n=n, first=first:
                        save(m, pr, cls, P, T, J, n, first, pm))
            t.proc.crash_at = crash
            writers.append(t)
            late[first] = (list(range(first, first + n)), t)

    got = {}
    paths = c.shuffled(sorted(contents))
    if c.chance(20):
        # the caller put its list together from several patterns
        paths.insert(c.integer(0, len(paths)), c.pick(paths))
        w.probe("file_listed_twice") if how == "paths" else None
    good = [x for x in sorted(contents) if contents[x]]
    # one job is run again (requeued, same number) and replaces its file by another complete one
    again = {}
    if c.chance(35):
        path = c.pick(good)
        n = c.pick([len(contents[path]), 1, 2, 6, 11])
        J = int(path.split("_J")[-1].split("_")[0])
        again[path] = list(range(40000, 40000 + n))
        t = w.spawn(f"job{J}-again", lambda J=J, n=n: save(m, pr, cls, P, T, J, n, 40000, pm))
        t.proc.crash_at = c.integer(1, 30) if c.chance(30) else None
        writers.append(t)
        w.probe("result_replaced_meanwhile")
    # the object has been used before
    used = c.pick(good) if c.chance(25) else None
    single = c.pick(paths if c.chance(25) else good)
    X = None
    if how == "file" and c.chance(40):
        X = c.pick([len(contents[single]), len(contents[single]) + 1, 1])

    def collate():
        FS = pr.FS(no_makedir=True)
        FS.generate_model_hashes()
        res = cls() if X is None else cls(X=X)
        if used is not None and how != "file":
            res.load_multiple_results([used])
        if how == "file":
            res.load_results(single)
        elif how == "template":
            m.pp.load_pimc_data(FS, P, T, res)
        else:
            if desired is None:
                res.load_multiple_results(paths)
            else:
                res.load_multiple_results(paths, desired)
        w.note("collated", None, f"{int(res.samples)} samples")
        got["res"] = res
    t = w.spawn("collate", collate)
    t.proc.faults = faults
    w.run()
    for x in writers:
        if failed(x):
            raise Violation("unexpected-failure", f"saving results: {describe(x.exc)}")
    desc = (f"{kfiles} files/{total} samples, P={P} T={T}, {cls.__name__}, via {how}, "
            f"desired={desired}, late writers={len(writers)}")
    if failed(t):
        if w.faults_fired.get("read_error"):
            return {"nontrivial": True, "desc": desc + ", reading failed"}
        if how == "file":
            sizes = {len(v) for v in (contents[single], again.get(single, [])) if v}
            if not contents[single] or (X is not None and sizes != {X}):
                w.probe("single_file_refused")
                return {"nontrivial": True, "desc": desc + f", X={X}: refused"}
        raise Violation("unexpected-failure", f"collating {desc}: {describe(t.exc)}")

    ids = identify(got["res"], pm, desc)
    need(len(set(ids)) == len(ids), "duplicated-samples",
         f"{desc}: samples {sorted(i for i in set(ids) if ids.count(i) > 1)[:8]} appear more "
         "than once")
    if how == "file":
        versions = [v for v in (contents[single], again.get(single)) if v]
        need(ids in versions, "wrong-samples",
             f"{desc}: the loaded samples {ids[:8]} are not those of {os.path.basename(single)} "
             f"{[v[:8] for v in versions]}")
        need(X is None or len(ids) == X, "wrong-count",
             f"{desc}: {len(ids)} samples were loaded into an object of {X}")
        return {"nontrivial": True, "desc": desc}
    must = set(i for p, v in contents.items() if p not in again for i in v)
    may = set(i for v, _ in late.values() for i in v)
    have = set(ids)
    sizes = [len(must), len(must)]
    for p, new in again.items():
        old = contents[p]
        may |= set(old) | set(new)
        sizes = [len(must) + min(len(old), len(new)), len(must) + max(len(old), len(new))]
        need(not (have & set(old) and have & set(new)), "mixed-versions",
             f"{desc}: samples of both versions of {os.path.basename(p)}")
    alien = have - must - may
    need(not alien, "foreign-samples", f"{desc}: samples {sorted(alien)[:8]} do not belong there")
    if desired is None:
        lost = must - have
        need(not lost, "lost-samples", f"{desc}: samples {sorted(lost)[:8]} were dropped")
        for p, new in again.items():
            need(have >= set(contents[p]) or have >= set(new), "lost-samples",
                 f"{desc}: neither version of {os.path.basename(p)} is there as a whole")
        for first, (block, task) in late.items():
            k = len(have & set(block))
            need(k in (0, len(block)), "partial-file",
                 f"{desc}: {k} of {len(block)} samples of a file that was being written")
            if k:
                w.probe("late_file_included")
    else:
        expect = [min(desired, x) for x in sizes]
        need(expect[0] <= len(ids) <= expect[1], "wrong-count",
             f"{desc}: asked for up to {desired} of {total} samples, got {len(ids)}")
    return {"nontrivial": kfiles > 1 or bool(writers), "desc": desc}
