"""C04 - provenance: what carries the hash of a model was computed from that model."""
import re
from .common import *
from . import thermo

ID = "C04"
MAX_STEPS = 60000
THERMO = re.compile(r"^P(\d+)_T(\d+\.\d\d)_X(\d+)_thermo$")


def scenario(w, c):
    w.p_switch = c.pick([0.25, 0.05, 0.6])
    return c.pick([analysis, job])(w, c)


def variants(w, c, pr, n):
    """n versions of the two model files, as text; version 0 is on disk"""
    vib, rho = [pr.vib_text], [pr.rho_text]
    alike = c.chance(40)
    for i in range(1, n):
        if alike:
            # nothing but the last number differs
            vib.append(last_number(vib[-1], i))
            rho.append(last_number(rho[-1], i))
            continue
        v = models.coupled(c, pr.A, pr.N, tag=100 * i)
        vib.append(models.to_text(v))
        rho.append(models.to_text(models.diagonal(c, pr.A, pr.N, v[models.K_W], tag=100 * i)))
    return vib, rho


def last_number(text, i):
    a, b = re.search(r"(-?[\d.]+(?:e-?\d+)?)[\]}\s]*$", text).span(1)
    return text[:a] + repr(float(text[a:b]) + i * 1e-4) + text[b:]


def replace(path, text):
    """what an editor (or another program) does: the file changes atomically"""
    tmp = path + ".edit"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


# --------------------------------------------------------------------------
def analysis(w, c):
    """result files of several model versions lie side by side"""
    m = env.modules
    if c.chance(12):
        pr = Project(w, c, A=3, N=c.integer(8, 20), quadratic=True)
    else:
        pr = Project(w, c)
    pr.write_models()
    vib, rho = variants(w, c, pr, 3)
    hv, hr = [sha512(t) for t in vib], [sha512(t) for t in rho]
    R2 = pr.R + 1
    other = f"{pr.data}rho_{R2}/"
    for s in ("parameters", "results", "execution_output", "plots"):
        os.makedirs(other + s, exist_ok=True)
    write_text(other + "parameters/sampling_model.json", rho[1])
    combos = list(dict.fromkeys((c.pick(thermo.BEADS), c.pick(thermo.TEMPS))
                                for _ in range(c.integer(1, 3))))
    rows_of = {}            # (rho dir, P, T, hash_vib, hash_rho) -> list of row arrays
    J = c.pick([1, 80])
    for base in (pr.rhod, other):
        for P, T in combos:
            for _ in range(c.integer(1, 4)):
                v = c.pick([0, 0, 1, 2])
                r = c.pick([0, 0, 1, 2]) if base == pr.rhod else c.pick([1, 1, 0, 2])
                stamp = c.pick(["both", "both", "both", "both", "no-vib", "no-rho", "none"])
                rows = thermo.random_rows(c, c.integer(2, 4))
                drop = {"both": (), "no-vib": ("hash_vib",), "no-rho": ("hash_rho",),
                        "none": ("hash_vib", "hash_rho")}[stamp]
                pr.put_result(P, T, J, rows, hash_vib=hv[v], hash_rho=hr[r], drop=drop,
                              where=base + "results/")
                if stamp == "both":
                    rows_of.setdefault((base, P, T, hv[v], hr[r]), []).append(rows)
                else:
                    w.probe("unstamped_result")
                J += c.pick([1, 3])
    analytics = {}          # text of the analytic file -> parsed

    def put_analytic(base, v, r, without=()):
        d = thermo.analytic_file(c, thermo.TEMPS, hv[v], hr[r])
        for k in without:
            del d[k]
        analytics.setdefault(base, []).append(d)
        return json.dumps(d)
    stale = c.pick([None, None, None, "vib", "rho", "missing"])
    without = c.pick([["hash_vib"], ["hash_rho"], ["hash_vib", "hash_rho"]]) \
        if stale == "missing" else []
    write_text(pr.rhod + "parameters/analytic_results.json",
               put_analytic(pr.rhod, 1 if stale == "vib" else 0, 1 if stale == "rho" else 0,
                            without))
    write_text(other + "parameters/analytic_results.json", put_analytic(other, 0, 1))

    method = c.pick(["basic", "alpha"])
    jk = c.chance(40)
    plan = c.pick([["R"], ["R", "R2"], ["R2", "R"], ["R", "R"], ["R", "R2", "R"]])
    editing = c.chance(45)
    current = {pr.rhod: {(hv[0], hr[0])}, other: {(hv[0], hr[1])}}
    if editing:
        edits = c.shuffled(["vib", "rho", "analytic"])[:c.integer(1, 3)]
        new_text = put_analytic(pr.rhod, 1 if "vib" in edits else 0, 1 if "rho" in edits else 0)
        for base, h in ((pr.rhod, [hr[0], hr[1]]), (other, [hr[1]])):
            for v in ([hv[0], hv[1]] if "vib" in edits else [hv[0]]):
                for r in (h if "rho" in edits or base == other else h[:1]):
                    current[base].add((v, r))

        def edit():
            for e in edits:
                for _ in range(w.c.sched(30, 0.7)):
                    w.point("idle")
                if e == "vib":
                    replace(pr.vib_path, vib[1])
                elif e == "rho":
                    replace(pr.rho_path, rho[1])
                else:
                    replace(pr.rhod + "parameters/analytic_results.json", new_text)
                w.fired("model_replaced")
        w.spawn("editor", edit)
    errors, done = [], []

    def user():
        FS = pr.FS(no_makedir=True)
        for step in plan:
            want = pr.R if step == "R" else R2
            if FS.id_rho != want:
                FS.change_rho(want)
                w.probe("changed_rho")
            try:
                thermo.run_analysis(FS, method, jk)
                done.append((step, getattr(FS, "hash_vib", None), getattr(FS, "hash_rho", None)))
            except Exception as e:
                errors.append((step, e))
                w.note("analysis-error", None, describe(e)[:160])
    t = w.spawn("user", user)
    w.run()
    w.check_task(t, "analysis")

    found = {}
    for base in (pr.rhod, other):
        for name in sorted(os.listdir(base + "results")):
            if not name.endswith("_thermo"):
                continue
            g = THERMO.match(name)
            need(g is not None, "wrong-name", f"unexpected thermo file {name}")
            P, T, X = int(g.group(1)), float(g.group(2)), int(g.group(3))
            d = read_json(base + "results/" + name, "partial-thermo")
            for k in ("hash_vib", "hash_rho"):
                need(k in d, "wrong-stamp", f"{name} lacks {k}")
            stamp = (d["hash_vib"], d["hash_rho"])
            need(stamp in current[base], "wrong-stamp",
                 f"{name} in {os.path.basename(base[:-1])} carries the hashes of models that were "
                 f"never current there (vib {which(hv, stamp[0])}, rho {which(hr, stamp[1])})")
            parts = rows_of.get((base, P, T) + stamp, [])
            need(parts, "foreign-result",
                 f"{name} is stamped vib {which(hv, stamp[0])}, rho {which(hr, stamp[1])} but no "
                 "result of those models exists")
            rows = np.concatenate(parts)
            need(len(rows) == X, "stale-samples",
                 f"{name}: {X} samples were analysed, {len(rows)} come from the stamped models")
            why = []
            for a in analytics[base]:
                if (a.get("hash_vib"), a.get("hash_rho")) == stamp:
                    bad = thermo.same(d, thermo.reference(rows, T, a, method, jk))
                    if bad is None:
                        break
                    why.append(bad)
            else:
                raise Violation("stale-samples", f"{name}: the values are not those of the "
                                f"stamped models: {'; '.join(why) or 'no analytic data for them'}")
            found[base, P, T] = stamp
    if not editing:
        for step, e in errors:
            if step == "R" and stale:
                continue
            raise Violation("unexpected-failure", f"analysis of {step}: {describe(e)}")
        if stale:
            usable = any(k[0] == pr.rhod and k[3:] == (hv[0], hr[0]) for k in rows_of)
            need(not usable or "R" not in [s for s, *_ in done], "stale-analytic",
                 f"an analysis used analytic data with the {stale} hash {without or 'of another model'}")
        for step, *_ in done:
            base = pr.rhod if step == "R" else other
            for P, T in combos:
                key = (base, P, T) + ((hv[0], hr[0]) if step == "R" else (hv[0], hr[1]))
                if key in rows_of:
                    need((base, P, T) in found, "missing-thermo",
                         f"no thermo file for P={P} T={T} in {os.path.basename(base[:-1])}")

    # selection of thermo files for plotting: exactly those of the current models
    listing = {}
    wrong = []
    for i in range(c.integer(0, 3)):
        v, r = c.pick([0, 0, 1]), c.pick([0, 0, 1])
        keys = c.pick([("hash_vib", "hash_rho"), ("hash_vib", "hash_rho"), ("hash_vib",), ()])
        d = {"Z": 1.0, "hash_vib": hv[v], "hash_rho": hr[r]}
        d = {k: x for k, x in d.items() if k == "Z" or k in keys}
        path = f"{pr.results}P{500 + i}_T300.00_X{7 + i}_thermo"
        write_text(path, json.dumps(d))
        wrong.append((path, d))
    if not editing:
        def select():
            FS = pr.FS(no_makedir=True)
            FS.generate_model_hashes()
            listing["all"] = m.pp.prune_results_using_hashes(
                FS, m.pp.retrive_jackknife_file_list(FS))
            listing["npz"] = m.pp.prune_results_using_hashes(FS, m.pp.retrive_pimc_file_list(FS))
        t = w.spawn("plot", select)
        w.run()
        w.check_task(t, "selecting result files")
        for path, d in wrong:
            ok = d.get("hash_vib") == hv[0] and d.get("hash_rho") == hr[0]
            got = os.path.basename(path) in [os.path.basename(x) for x in listing["all"]]
            need(ok == got, "wrong-selection",
                 f"{os.path.basename(path)} with {sorted(d)} is {'not ' if not got else ''}selected"
                 f" although it {'is' if ok else 'is not'} a result of the current models")
        good = sum(len(v) for k, v in rows_of.items() if k[0] == pr.rhod and k[3:] == (hv[0], hr[0]))
        need(len(listing["npz"]) == good, "wrong-selection",
             f"{len(listing['npz'])} result files selected, {good} belong to the current models")
    return {"nontrivial": True,
            "desc": f"analysis {plan} {method}{'/jackknife' if jk else ''}, {len(rows_of)} sets, "
                    f"stale analytic {stale}{', models edited meanwhile' if editing else ''}, "
                    f"{len(errors)} errors"}


def which(hashes, h):
    return f"version {hashes.index(h)}" if h in hashes else f"unknown ({str(h)[:8]})"


# --------------------------------------------------------------------------
SCRIPTS = ("nlogn_feynman", "compute_canada")
PLAIN = """
import os, sys
from pibronic.pimc import pimc as engine
data = engine.BoxData.from_json_string(sys.argv[1])
data.preprocess()
result = engine.BoxResult(data=data)
result.path_root = os.path.join(sys.argv[2], "results/")
result.id_job = sys.argv[3]
engine.block_compute(data, result)
"""


def job(w, c):
    """a sampling job runs while somebody replaces its models"""
    m = env.modules
    pr = Project(w, c, A=c.integer(1, 3), N=c.integer(1, 2))
    pr.write_models()
    vib, rho = variants(w, c, pr, 2)
    hv, hr = [sha512(t) for t in vib], [sha512(t) for t in rho]
    P, T = c.pick([3, 4]), c.pick([300.0, 55.5])
    block = c.integer(1, 2)
    n = block * c.integer(1, 3)
    script = f"{env.REPO}/pibronic/server/{c.pick(SCRIPTS)}/pimc.py"
    with REAL["open"](script) as f:
        source = f.read()
    plain = c.chance(25)
    if plain:
        # the calculation without temperature differences has no script of its own
        source = PLAIN
        w.probe("plain_job")

    def program(name, pr):
        params = json.dumps({
            "number_of_samples": n, "number_of_blocks": n // block, "number_of_states": pr.A,
            "number_of_beads": P, "number_of_modes": pr.N, "temperature": T,
            "block_size": block, "delta_beta": models.DELTA_BETA, "id_data": pr.D,
            "id_rho": pr.R, "path_root": pr.root}, separators=(";", ":"))

        def body():
            glb = {"__name__": "__main__", "__file__": script, "__builtins__": __builtins__}
            exec(compile(source, script, "exec"), glb)
        t = w.spawn(name, body, argv=[script, params, pr.rhod, "77"])
        t.proc.out = []
        return t
    job_task = program("job", pr)
    first = job_task.proc.np_state
    edits = c.shuffled(["vib", "rho"])[:c.integer(1, 2)]
    sooner = c.pick([8, 30, 80])

    def edit():
        for e in edits:
            for _ in range(w.c.sched(sooner, 0.9)):
                w.point("idle")
            if e == "vib":
                replace(pr.vib_path, vib[1])
            else:
                replace(pr.rho_path, rho[1])
            w.fired("model_replaced")
    w.spawn("editor", edit)
    if c.chance(20):
        job_task.proc.crash_at = c.integer(1, 60)
    w.run()
    desc = f"{'plain ' if plain else ''}job with {n} samples, {' then '.join(edits)} replaced meanwhile"
    name = pr.pimc_name(P, T, 77)
    path = pr.results + name
    if not os.path.exists(path):
        if job_task.exc is None:
            raise Violation("missing-result", "the job succeeded but left no result")
        w.probe("job_refused")
        return {"nontrivial": True, "desc": desc + ", job gave up"}
    d = read_npz(path)
    need(d is not None, "partial-result", f"{name} is not complete")
    sv, sr = str(d.get("hash_vib")), str(d.get("hash_rho"))
    need(sv in hv and sr in hr, "wrong-stamp", f"{name} carries hashes of no version of the models")
    # the same computation, on its own, with the models the result claims
    ctl = Project(w, c, D=pr.D, R=pr.R, A=pr.A, N=pr.N)
    ctl.root = w.path("control")
    ctl.data, ctl.rhod = (x.replace(pr.root, ctl.root) for x in (pr.data, pr.rhod))
    ctl.results = ctl.rhod + "results/"
    ctl.vib_path, ctl.rho_path = (x.replace(pr.root, ctl.root) for x in (pr.vib_path, pr.rho_path))
    os.makedirs(ctl.root, exist_ok=True)
    ctl.write_models()
    ctl.set_vib(vib[hv.index(sv)])
    ctl.set_rho(rho[hr.index(sr)])
    t = program("control", ctl)
    t.proc.np_state = first
    t.proc.pid, t.proc.uid = job_task.proc.pid, job_task.proc.uid
    w.run()
    w.check_task(t, "the job on its own, with the models unchanged")
    e = read_npz(ctl.results + name)
    need(e is not None, "missing-result", "the job on its own left no result")
    w.probe("job_compared")
    for k in ("s_rho", "s_g") + (() if plain else ("s_gP", "s_gM")):
        need(k in d and k in e and d[k].shape == e[k].shape
             and np.allclose(d[k], e[k], rtol=1e-10, atol=0), "mixed-models",
             f"{name} is stamped vib {which(hv, sv)}, rho {which(hr, sr)}, but {k} is "
             f"{d[k][:3].tolist()} and those models give {e[k][:3].tolist()}")
    return {"nontrivial": True, "desc": desc}
