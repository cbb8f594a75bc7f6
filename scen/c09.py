"""C09 - the concurrent analysis equals the estimators applied to all samples, one set at a time."""
import re
from .common import *
from . import thermo

ID = "C09"
MAX_STEPS = 60000
NAME = re.compile(r"^P(\d+)_T(\d+\.\d\d)_X(\d+)_thermo$")


def scenario(w, c):
    m = env.modules
    pr = Project(w, c)
    pr.write_models()
    w.p_switch = c.pick([0.2, 0.03, 0.6])
    w.hosts = c.pick([1, 1, 2, 3])
    combos = [(c.pick(thermo.BEADS), c.pick(thermo.TEMPS))
              for _ in range(c.pick([1, 2, 3, 3, 5]) if c.chance(95) else 14)]
    combos = list(dict.fromkeys(combos))
    data = {}
    J = c.pick([0, 1, 9, 400, 4123456])
    many = c.chance(6)
    for P, T in combos:
        parts = []
        for _ in range(c.integer(1, 3) if c.chance(96) else c.integer(10, 24)):
            n = c.pick([2, 3, 5, 9] if not many else [2, 60, 257, 1100])
            rows = thermo.random_rows(c, n)
            pr.put_result(P, T, J, rows)
            parts.append(rows)
            J += c.pick([1, 2, 10])
        data[P, T] = parts
    analytic = thermo.analytic_file(c, thermo.TEMPS, pr.hash_vib, pr.hash_rho)
    # a temperature whose analytic values are not known (others close to it are)
    lacking = set()
    if c.chance(10):
        T = c.pick([T for _, T in combos])
        lacking.add(T)
        v = analytic.pop(f"{T:.2f}")
        for near in (round(T), round(T, 1), T + 0.01, T - 0.01):
            analytic.setdefault(f"{near:.2f}", v)
        analytic.pop(f"{T:.2f}", None)
    write_text(pr.rhod + "parameters/analytic_results.json", json.dumps(analytic))

    # which analyses run, and whether at the same time
    kinds = [(method, jk) for method in ("basic", "alpha") for jk in (False, True)]
    plan = [c.pick(kinds) for _ in range(c.pick([1, 1, 2, 2, 3]))]
    together = len(plan) > 1 and c.chance(60)
    crash = c.chance(25)
    faults = swarm_io(c, ["short_read", "read_error", "write_error", "short_write", "open_error"],
                      c.pick([0.05, 0.01])) if c.chance(35) else {}

    # another job publishes its result while the analysis runs
    late = None
    if c.chance(40):
        P, T = c.pick(combos) if c.chance(70) else (c.pick(thermo.BEADS), c.pick(thermo.TEMPS))
        late = {"key": (P, T), "rows": thermo.random_rows(c, c.integer(2, 5)), "J": 9000}

    seen = {}

    def judge(name, text, label):
        g = NAME.match(name)
        need(g is not None, "wrong-name", f"unexpected thermo file {name}")
        P, T, X = int(g.group(1)), float(g.group(2)), int(g.group(3))
        try:
            d = json.loads(text)
        except ValueError:
            raise Violation("partial-thermo", f"{name} is not complete ({label})")
        sets = []
        if (P, T) in data:
            sets.append(data[P, T])
        if late is not None and late["key"] == (P, T):
            sets.append(data.get((P, T), []) + [late["rows"]])
        need(sets, "foreign-thermo", f"{name}: there are no samples with P={P} T={T}")
        need(T not in lacking, "made-up-thermo",
             f"{name} was stored, there are no analytic values at this temperature")
        why = []
        for parts in sets:
            rows = np.concatenate(parts)
            if len(rows) != X:
                why.append(f"there are {len(rows)} samples, the name says {X}")
                continue
            for method, jk in dict.fromkeys(plan):
                bad = thermo.same(d, thermo.reference(rows, T, analytic, method, jk))
                extra = not jk and any(k.startswith("jk_") for k in d)
                if bad is None and not extra:
                    need(d.get("hash_vib") == pr.hash_vib and d.get("hash_rho") == pr.hash_rho,
                         "wrong-stamp", f"{name} does not carry the hashes of its models")
                    return (P, T), (method, jk), len(parts)
                why.append(f"{method}{'/jackknife' if jk else ''}: {bad}")
        raise Violation("wrong-estimate", f"{name} ({label}): " + "; ".join(why)[:600])

    def observe(world, label):
        for name in sorted(REAL["os.listdir"](pr.results)):
            if not name.endswith("_thermo"):
                continue
            path = pr.results + name
            try:
                st = REAL["os.stat"](path)
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if seen.get(name) == key:
                    continue
                text = read_text(path)
            except OSError:
                continue
            judge(name, text, f"observed at {label}")
            seen[name] = key
    w.observers.append(observe)

    def analyse(method, jk):
        FS = pr.FS(no_makedir=True)
        thermo.run_analysis(FS, method, jk)
        return True
    tasks = []

    def wait_turn(i):
        w.block(lambda: tasks[i - 1].done, "previous analysis")
    for i, (method, jk) in enumerate(plan):
        def body(i=i, method=method, jk=jk):
            if i and not together:
                wait_turn(i)
            return analyse(method, jk)
        t = w.spawn(f"user{i}", body)
        t.proc.faults = dict(faults)
        tasks.append(t)
    if crash:
        victim = c.pick(tasks)
        victim.proc.crash_at = c.integer(1, 120)
    if late is not None:
        def publish():
            for _ in range(c.integer(0, 12)):
                w.point("idle")
            tmp = pr.rhod + "late.npz"
            write_npz(tmp, hash_vib=pr.hash_vib, hash_rho=pr.hash_rho,
                      number_of_samples=len(late["rows"]), s_rho=late["rows"][:, 0],
                      s_g=late["rows"][:, 1], s_gP=late["rows"][:, 2], s_gM=late["rows"][:, 3])
            P, T = late["key"]
            os.rename(tmp, pr.results + pr.pimc_name(P, T, late["J"]))
        w.spawn("late-job", publish)
    w.run()
    observe(w, "end")
    io = any(w.faults_fired.get(k) for k in ("read_error", "write_error", "open_error"))
    errors = 0
    for (method, jk), t in zip(plan, tasks):
        if failed(t):
            errors += 1
            if not io and not lacking:
                raise Violation("unexpected-failure",
                                f"{method}{'/jackknife' if jk else ''}: {describe(t.exc)}")
    # everything that was there from the start was analysed
    final = {}
    need(os.path.isdir(pr.results), "missing-results", "the results directory itself is gone")
    for name in sorted(os.listdir(pr.results)):
        if name.endswith("_thermo"):
            key, kind, parts = judge(name, read_text(pr.results + name), "at the end")
            final.setdefault(key, []).append(kind)
    for kind, t in zip(plan, tasks):
        if t.exc is not None:
            continue
        need(not lacking, "unreported-failure", f"{kind} succeeded without the analytic values "
             f"at {sorted(lacking)} K")
        for key in combos:
            need(key in final, "missing-thermo",
                 f"{kind} succeeded but there is no thermo file for P={key[0]} T={key[1]}")
            if not together and len(tasks) and t is tasks[-1] and late is None:
                need(kind in final[key], "stale-thermo",
                     f"the last analysis was {kind}, the file for {key} comes from {final[key]}")
    return {"nontrivial": len(combos) > 1 or len(plan) > 1 or late is not None,
            "desc": f"{len(combos)} combinations, analyses {plan}{' at once' if together else ''}"
                    f"{', late result' if late else ''}{', crash' if crash else ''}, "
                    f"{errors} failed"}
