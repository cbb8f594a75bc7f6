"""C08 - waiting on a batch job: never early, failures are reported, and it always ends."""
from .common import *
from sim.slurm import Slurm, TERMINAL, COMPLETING, PENDING, RUNNING

ID = "C08"
MAX_STEPS = 60000
NAMES = ["molecule", "COMPLETED", "FAILED_before", "a.in", "not_COMPLETED_yet", "TIMEOUT"]
GRACE = 90.0          # simulated seconds a waiter may need once the job has ended


def scenario(w, c):
    m = env.modules
    sl = Slurm(w, cluster=c.pick(["nlogn", "feynman"]))
    sl.next_id = c.pick([1, 7, 99, 4101, 12345678, 999999999])
    sl.id_step = c.pick([1, 1, 3])
    w.p_switch = c.pick([0.1, 0.3])
    sl.min_job_age = c.pick([300.0, 300.0, 300.0, 12.0, 3.0])
    sl.outage_p = c.pick([0.0] * 5 + [0.03])
    base = w.path("work", c.pick(NAMES))
    os.makedirs(base)
    script = w.path("work", "submit_template")
    write_text(script, "#!/bin/bash\ntrue\n")
    plans = {}            # job id -> what will happen to it
    stalls = c.chance(15)

    def launch(job):
        """what happens while a job runs, decided when it starts"""
        pl = plans[job.id]
        n = pl["runs"].pop(0)
        parent = pl["parent"]
        for dt in n["signals"]:
            w.at(dt, lambda: w.send_signal(parent, 10))
        if n["signals"]:
            w.fired("signal_sent")
        if n["next"] == "requeue":
            def back():
                if job.state == RUNNING:
                    job.state, job.reason = PENDING, "Requeued"
                    w.note("job-requeued", None, job.id)
                    w.fired("job_requeued")
                    w.at(n["gap"], lambda: sl.start(job))
            w.at(n["length"], back)
            return
        if n["suspend"]:
            def change(old, new):
                if job.state == old:
                    job.state = new
                    w.fired("job_suspended")
            w.at(n["length"] * 0.2, lambda: change(RUNNING, "SUSPENDED"))
            w.at(n["length"] * 0.7, lambda: change("SUSPENDED", RUNNING))
        if n["completing"]:
            def completing():
                if job.state == RUNNING:
                    job.state = COMPLETING
            w.at(n["length"], completing)

        def end():
            sl.finish(job, n["next"], 0 if n["next"] == "COMPLETED" else 1)
            if n["next"] != "COMPLETED":
                w.fired("job_" + n["next"].lower())
        w.at(n["length"] + n["completing"], end)

    sl.runner = launch
    sl.autostart = False

    def draw_plan(parent):
        runs = []
        for _ in range(c.pick([1, 1, 1, 2, 3])):
            length = c.pick([0.0, 1.0, 4.0, 7.5, 30.0, 31.0, 200.0, 3000.0])
            sig = []
            for _ in range(c.pick([1, 1, 0, 2, 3])):
                sig.append(c.pick([0.0, length * 0.5, max(0.0, length - 1), length,
                                   length + 0.5, length + 20]))
            runs.append({"length": length, "signals": sig, "gap": c.pick([0.5, 8.0, 500.0]),
                         "completing": c.pick([0, 0, 2.0, 25.0, 400.0]), "next": "requeue",
                         "suspend": length >= 30 and c.chance(15)})
        runs[-1]["next"] = c.pick(["COMPLETED"] * 4 + ["FAILED", "CANCELLED", "TIMEOUT",
                                                       "NODE_FAIL", "OUT_OF_MEMORY",
                                                       "BOOT_FAIL", "DEADLINE", "PREEMPTED",
                                                       "REVOKED"])
        return {"runs": runs, "parent": parent,
                "delay": 90000.0 if long_queue else c.pick([0.0, 2.0, 6.0, 100.0, 5000.0])}

    history = []

    def client(k, n, how, drawn):
        import signal
        import time
        from sim.core import World
        me = World.active.current_task().proc
        signal.signal(signal.SIGUSR1, m.jb.SIGUSR1_handle)
        for i in range(n):
            cmd = ("sbatch --job-name={name:s} --workdir={root:s} --export=A=1,PARENT_PID={pid:d}"
                   " {script:s}")
            jid, out, err = m.jb.submit_job(cmd, {"name": names[k][i], "root": base, "pid": me.pid,
                                                  "script": script})
            need(isinstance(jid, int) and jid in sl.jobs, "wrong-job",
                 f"the job was given the id {jid!r}, the scheduler said {out!r}")
            job = sl.jobs[jid]
            need(job.by == me.name, "wrong-job", f"{me.name} was given the id of another's job")
            pl = drawn[i]
            plans[jid] = pl
            w.at(pl["delay"], lambda job=job: sl.start(job))
            if pl.get("pause"):
                time.sleep(pl["pause"])
            h = {"job": job, "by": me.name, "begin": w.now, "end": None, "ok": None}
            history.append(h)
            try:
                if how == "results":
                    m.es.wait_on_results(jid, "geometry optimization")
                else:
                    m.jb.synchronize_with_job(jid, "VIBRON")
                h["ok"] = True
            except (Violation, SimCrash, HarnessError):
                raise
            except Exception as e:
                h["ok"], h["why"] = False, describe(e)
            h["end"], h["state"], h["purged"] = w.now, job.state, job.purged
            what = f"job {jid} ({names[k][i]} in {os.path.basename(base)})"
            if h["ok"]:
                need(job.state == "COMPLETED", "early-return",
                     f"{what}: the wait ended successfully while the job was {job.state}")
            elif not w.faults_fired.get("spawn_error") and me.name not in sl.outages:
                need(job.state in TERMINAL, "early-failure",
                     f"{what}: the wait failed while the job was {job.state}: {h['why']}")
                need(job.state != "COMPLETED" or job.purged, "false-failure",
                     f"{what}: the job completed but the wait failed: {h['why']}")

    names = {}
    tasks = []
    long_queue = c.chance(3)         # the job waits for more than a day
    users = 1 if long_queue else c.pick([1, 1, 2, 3])
    seconds = 0.0
    for k in range(users):
        n = 1 if long_queue else c.integer(1, 3)
        names[k] = [c.pick(NAMES) for _ in range(n)]
        how = c.pick(["results", "results", "sync"])
        drawn = []
        t = w.spawn(f"client{k}", lambda k=k, n=n, how=how, drawn=drawn: client(k, n, how, drawn))
        for _ in range(n):
            pl = draw_plan(t.proc)
            pl["pause"] = c.pick([0, 0, 0, 3.0, 40.0, 290.0, 400.0])
            drawn.append(pl)
            seconds += pl["delay"] + pl["pause"] + sum(
                r["length"] + r["gap"] + r["completing"] + 600 for r in pl["runs"])
        if c.chance(15):
            t.proc.faults = {"spawn_error": 0.02}
        tasks.append(t)
    # a waiter looks every few seconds: the longest wait still ends within this many steps
    w.max_steps = 20000 + int(3 * seconds)
    w.run(until=lambda: all(t.done for t in tasks) or over(w, sl, history, tasks))
    for h in history:
        job = h["job"]
        if h["end"] is None:
            if job.end_time is not None:
                raise Violation("stuck", f"job {job.id} ended {w.now - job.end_time:.0f} s ago "
                                         f"({job.state}) and its owner still waits")
            raise HarnessError("the run ended before the jobs did")
        if job.end_time is not None:
            since = max(job.end_time, h["begin"])
            need(h["end"] - since <= GRACE, "slow-return",
                 f"job {job.id} ended and its owner waited {h['end'] - since:.0f} s more")
    for t in tasks:
        if failed(t) and not w.faults_fired.get("spawn_error"):
            raise Violation("unexpected-failure", describe(t.exc))
    return {"nontrivial": any(len(plans[h["job"].id]["runs"]) == 0 for h in history),
            "desc": f"{users} clients, jobs " + ", ".join(
                f"{h['job'].id}:{h['job'].state}:{'ok' if h['ok'] else 'error'}" for h in history)}


def over(w, sl, history, tasks):
    """some waiter is long past the end of its job"""
    for h in history:
        j = h["job"]
        if h["end"] is None and j.end_time is not None and \
                w.now > max(j.end_time, h["begin"]) + 4 * GRACE:
            return True
    return False
