"""C06 - the store of deterministic results: only complete answers for the stamped models, none lost."""
import re

from .common import *
from sim import julia as J

ID = "C06"
MAX_STEPS = 30000
TEMPS = [300.0, 77.25, 12.5, 299.99, 1000.0, 1.21]
QUANTITY = re.compile(r"(Z|E|E0|Cv|SvN|S2)_\w+$|beta$|tau$")
NAME = {"analytical": "rho", "sos": "sos", "trotter": "trotter"}


class Store:
    """one results file, and what it may hold"""

    def __init__(self, pr, texts, path, kind, model, both, basis=None, links=None):
        self.pr, self.texts = pr, texts
        self.path, self.kind, self.model, self.both = path, kind, model, both
        self.basis, self.links = basis, links
        self.done = {}           # (stamp, key of T) of calls that succeeded
        self.seen = None


def scenario(w, c):
    m = env.modules
    jl = J.Julia(w)
    w.p_switch = c.pick([0.2, 0.5, 0.05])
    w.hosts = c.pick([1, 1, 2, 3])
    jl.max_time = c.pick([0, 5, 40])
    jl.fail_p = c.pick([0.0, 0.0, 0.15, 0.4])
    pr = Project(w, c)
    projects = [pr]
    if c.chance(30):              # another data set, elsewhere or beside the first
        if c.chance(50):
            projects.append(Project(w, c, pr.D, pr.R, root=("work", "second")))
        else:
            pr2 = Project(w, c, pr.D + 1, pr.R, root=("work", "x"))
            pr2.root = pr.root
            pr2.data = f"{pr.root}/data_set_{pr2.D}/"
            pr2.rhod = f"{pr2.data}rho_{pr2.R}/"
            pr2.results = pr2.rhod + "results/"
            pr2.vib_path = pr2.data + "parameters/coupled_model.json"
            pr2.rho_path = pr2.rhod + "parameters/sampling_model.json"
            projects.append(pr2)
    stores = []
    sizes = c.pick([[4], [4, 14], [12], [4, 120]])
    links = c.pick([[3], [3, 30], [30, 300], [128]])
    later = []
    for x in projects:
        x.write_models()
        orig_path = x.data + "parameters/original_coupled_model.json"
        orig = models.to_text(models.coupled(c, 2, 2))
        if c.chance(20):                  # there is no original model, yet
            later.append((orig_path, orig))
        else:
            write_text(orig_path, orig)
        tx = {"orig": {None: orig}, "vib": {x.hash_vib: x.vib_text},
              "rho": {x.hash_rho: x.rho_text}}
        par = x.data + "parameters/"
        stores += [Store(x, tx, x.rhod + "parameters/analytic_results.json", "analytical", "rho",
                         True),
                   Store(x, tx, par + "original_analytic_results.json", "analytical", "orig",
                         False)]
        for B in sizes:
            stores.append(Store(x, tx, par + f"sos_B{B}.json", "sos", "vib", False, basis=B))
            for P in links:
                stores.append(Store(x, tx, par + f"trotter_P{P}_B{B}.json", "trotter", "vib",
                                    False, basis=B, links=P))
    texts = stores[0].texts
    temps = c.subset(TEMPS) or [300.0]
    keys = {f"{T:.2f}": T for T in TEMPS}

    def beta(T):
        return m.const.beta(T)

    def answer(st, text, T):
        opts = {"--beta": repr(float(beta(T)))}
        if st.basis:
            opts["--basis-size"] = str(st.basis)
        if st.links:
            opts["--num-links"] = str(st.links)
        if st.model == "orig":
            opts["--uncoupled"] = True
        q = jl.answers(st.kind, opts, text)
        return {k.replace(st.kind, NAME[st.kind]): v for k, v in q.items()}

    def stamp_of(st, d, what):
        hv, hr = d.get("hash_vib"), d.get("hash_rho")
        need(hv in st.texts["vib"] and (not st.both or hr in st.texts["rho"]), "wrong-stamp",
             f"{what} carries the hash of no version of the model")
        return (hv, hr) if st.both else (hv,)

    def check(st, label):
        what = os.path.relpath(st.path, st.pr.data)
        try:
            text = read_text(st.path)
        except FileNotFoundError:
            need(not st.seen, "lost-file", f"{what} disappeared (at {label})")
            return None
        if text == st.seen or (text == "" and text in st.given and not st.seen):
            return None
        try:
            d = json.loads(text)
        except ValueError:
            raise Violation("partial-file", f"{what} is not complete (at {label})")
        if text not in st.given:
            stamp = stamp_of(st, d, what)
            body = st.texts[st.model]
            body = body[None if st.model == "orig" else
                        stamp[1] if st.model == "rho" else stamp[0]]
            for k, v in d.items():
                if k.startswith("hash_"):
                    continue
                need(k in keys, "wrong-temperature", f"{what} has results for T={k!r}")
                want = answer(st, body, keys[k])
                need(isinstance(v, dict) and set(want) <= set(v), "partial-answer",
                     f"{what}: T={k} lacks {sorted(set(want) - set(v or {}))}")
                need(not [q for q in v if q not in want and QUANTITY.match(q)], "foreign-answer",
                     f"{what}: T={k} has {sorted(set(v) - set(want))}, which the program did not "
                     f"print")
                for q, x in want.items():
                    need(close(v[q], x, 1e-12), "wrong-value",
                         f"{what}: T={k} {q}={v[q]}, the answer for the stamped model is {x} "
                         f"(at {label})")
            for (s, k) in st.done:
                if s == stamp:
                    need(k in d, "lost-answer",
                         f"{what}: the answer for T={k} was stored and is gone (at {label})")
        st.seen = text
        return d

    # what earlier sessions left
    for st in stores:
        st.given = set()
        how = c.pick(["none", "none", "current", "stale", "bare", "empty"])
        if how == "none":
            continue
        if how == "empty":
            write_text(st.path, "")
            st.given.add("")
            st.seen = ""
            continue
        stamp = {"hash_vib": st.pr.hash_vib}
        if st.both:
            stamp["hash_rho"] = st.pr.hash_rho
        body = st.texts[st.model]
        body = body[None if st.model == "orig" else
                    st.pr.hash_rho if st.model == "rho" else st.pr.hash_vib]
        if how == "stale":
            k = c.pick(sorted(stamp))
            stamp[k] = sha512("another model")
            body = "another model"
        d = {} if how == "bare" else dict(stamp)
        for T in c.subset(TEMPS):
            d[f"{T:.2f}"] = answer(st, body if how != "bare" else "unknown", T)
            if how == "current":
                st.done[((st.pr.hash_vib, st.pr.hash_rho) if st.both else (st.pr.hash_vib,),
                         f"{T:.2f}")] = True
        write_text(st.path, json.dumps(d))
        if how in ("stale", "bare"):
            st.given.add(json.dumps(d))
        st.seen = None

    def look(world, label):
        for st in stores:
            check(st, label)
    look(w, "start")
    w.observers.append(look)

    edits = []

    def call(FS, st, T):
        b = beta(T)
        if st.kind == "sos":
            m.jw.sos_of_coupled_model(FS, st.basis, b)
        elif st.kind == "trotter":
            m.jw.trotter_of_coupled_model(FS, st.links, st.basis, b)
        elif st.model == "rho":
            m.jw.analytic_of_sampling_model(FS, b)
        else:
            m.jw.analytic_of_original_coupled_model(FS, b)

    def by_main(st, T):
        kw = {"path": st.pr.root, "id_data": st.pr.D, "id_rho": st.pr.R, "temperature": T}
        if st.kind == "sos":
            kw.update(method="sos", basis_size=st.basis)
        elif st.kind == "trotter":
            kw.update(method="trotter_coupled", basis_size=st.basis, beads=st.links)
        else:
            kw["method"] = "analytical_sampling" if st.model == "rho" else "analytical_original"
        m.jw.main(**kw)

    def open_all():
        d = {}
        for x in projects:
            d[x] = x.FS()
            d[x].generate_model_hashes()
        return d

    def user(plan, rec):
        opened = open_all()
        for st, T, how in plan:
            FS = opened[st.pr]
            mine = {"st": st, "T": T, "ok": None, "edited": False}
            rec.append(mine)
            try:
                if how == "main":
                    by_main(st, T)
                else:
                    if how == "refresh":
                        FS.generate_model_hashes()
                    call(FS, st, T)
                mine["ok"] = True
            except (Violation, SimCrash, HarnessError):
                raise
            except Exception as e:
                mine["ok"] = False
                mine["why"] = describe(e)
            mine["edited"] = bool(edits)
            if mine["ok"]:
                text = read_text(st.path)
                d = json.loads(text)
                st.seen = None
                check(st, "after a call")
                stamp = (d.get("hash_vib"), d.get("hash_rho")) if st.both else (d.get("hash_vib"),)
                if not edits:
                    cur = (st.pr.hash_vib, st.pr.hash_rho) if st.both else (st.pr.hash_vib,)
                    need(stamp == cur, "wrong-stamp", "results stored under another stamp")
                    need(f"{T:.2f}" in d, "lost-answer",
                         f"{os.path.basename(st.path)}: the call for T={T:.2f} stored nothing")
                    st.done[cur, f"{T:.2f}"] = True
        return True

    users = []
    hot = c.subset(stores)[:2] or [stores[0]]
    for i in range(c.integer(1, 4)):
        plan = []
        for _ in range(c.integer(1, 3)):
            st = c.pick(hot if c.chance(70) else stores)
            plan.append((st, c.pick(temps), c.pick(["plain", "plain", "refresh", "main"])))
        rec = []
        t = w.spawn(f"user{i}", lambda plan=plan, rec=rec: user(plan, rec))
        kind = c.pick(["none", "none", "none", "crash", "disk"])
        if kind == "crash":
            t.proc.crash_at = c.integer(1, 25 * len(plan))
        elif kind == "disk":
            t.proc.faults = swarm_io(c, ["write_error", "short_write", "open_error", "meta_error",
                                         "read_error", "short_read", "spawn_error"], 0.05, 60)
        users.append((t, kind, plan, rec))

    if c.chance(35):
        which = c.pick(["vib", "rho", "both"])

        def edit():
            import time
            if c_delay:
                time.sleep(c_delay)
            for k in (["vib", "rho"] if which == "both" else [which]):
                w.point("edit")
                new = models.coupled(c, 2, 2) if k == "vib" else None
                if k == "vib":
                    text = models.to_text(new)
                    texts["vib"][sha512(text)] = text
                    REAL["open"](pr.vib_path + ".new", "w").write(text)
                    edits.append(k)
                    REAL["os.replace"](pr.vib_path + ".new", pr.vib_path)
                else:
                    text = models.to_text(models.diagonal(c, 2, 2, pr.vib[models.K_W]))
                    texts["rho"][sha512(text)] = text
                    REAL["open"](pr.rho_path + ".new", "w").write(text)
                    edits.append(k)
                    REAL["os.replace"](pr.rho_path + ".new", pr.rho_path)
        c_delay = c.integer(0, 60)
        w.spawn("editor", edit)
        w.fired("model_edit")
    w.run()
    look(w, "end")
    for t, kind, plan, rec in users:
        if failed(t):
            if kind == "disk" or edits:
                continue
            raise Violation("unexpected-failure", describe(t.exc))
        for r in rec:
            if r["ok"] is False and kind != "disk" and not r["edited"]:
                bad = any(not ok for _, _, _, ok in jl.calls)
                need(bad, "unexpected-failure", r["why"])
    for k in ("julia_killed", "julia_empty", "julia_partial", "julia_signal"):
        if w.faults_fired.get(k):
            lost = [r for _, _, _, rec in users for r in rec if r["ok"] is False]
            crashed = [t for t, kd, _, _ in users if isinstance(t.exc, SimCrash)]
            need(lost or crashed, "swallowed-failure",
                 "a calculation failed and every caller was told it succeeded")

    # when the faults are over every request can be met, and nothing is lost
    jl.fail_p = 0.0
    for path, text in later:
        write_text(path, text)

    def again():
        opened = open_all()
        for t, kind, plan, rec in users:
            for st, T, how in plan:
                call(opened[st.pr], st, T)
        for t, kind, plan, rec in users:
            for st, T, how in plan:
                FS = opened[st.pr]
                d = json.loads(read_text(st.path))
                st.seen = None
                check(st, "again")
                need(d.get("hash_vib") == FS.hash_vib
                     and (not st.both or d.get("hash_rho") == FS.hash_rho), "wrong-stamp",
                     "results of another model are kept")
                need(f"{T:.2f}" in d, "lost-answer",
                     f"{os.path.basename(st.path)}: no answer for T={T:.2f}")
    t = w.spawn("again", again)
    w.run()
    w.check_task(t, "calculating after the faults")
    return {"nontrivial": len(users) > 1 or jl.fail_p > 0 or bool(edits),
            "desc": f"{len(users)} users {[k for _, k, _, _ in users]}, "
                    f"{[len(p) for _, _, p, _ in users]} calls, temperatures {temps}, "
                    f"edits {edits}, julia failures {sum(not x[3] for x in jl.calls)}"}
