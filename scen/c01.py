"""C01 - a submission asks the scheduler for exactly the work that was requested."""
from sim.slurm import Slurm
from .common import *

ID = "C01"
MAX_STEPS = 40000

TEMPS = [300.0, 300.25, 12.5, 1000.0, 77, 300.04]
BEADS = [3, 4, 12, 64, 100]


def check_request(w, req, jobs, complete):
    """jobs: the decoded jobs the scheduler accepted for this request"""
    what = req["what"]
    combos = [(float(T), P) for T in req["T"] for P in req["P"]]
    by = {}
    for j in jobs:
        d = j["data"]
        by.setdefault((float(d["T"]), d["P"]), []).append(j)
    for key in by:
        need(key in combos, "unrequested-parameters",
             f"{what}: a job with temperature {key[0]} and {key[1]} beads was submitted")
    for key in combos:
        mine = by.get(key, [])
        if complete:
            need(mine, "missing-job", f"{what}: nothing was submitted for T={key[0]} P={key[1]}")
        amount = [j["data"]["blocks"] * j["data"]["block_size"] for j in mine]
        for j in mine:
            check_job(req, j)
        if complete:
            need(sum(amount) >= req["total"], "too-few-samples",
                 f"{what}: T={key[0]} P={key[1]}: {len(mine)} jobs compute {sum(amount)} of the "
                 f"{req['total']} requested samples")
        need(not amount or sum(amount) - max(amount) < req["total"], "too-many-jobs",
             f"{what}: T={key[0]} P={key[1]}: {len(mine)} jobs compute {sum(amount)} samples, "
             f"{req['total']} were requested")


def check_job(req, j):
    d, job, pr = j["data"], j["job"], req["pr"]
    what = f"{req['what']}, job {job.id}"
    want = {"A": req["A"], "N": req["N"], "D": pr.D, "R": req["R"],
            "block_size": req["block_size"]}
    for k, v in want.items():
        need(d[k] == v, "wrong-parameter", f"{what}: {k}={d[k]} was submitted, {v} was requested")
    computed = d["blocks"] * d["block_size"]
    need(0 < computed <= d["X"], "wrong-parameter",
         f"{what}: {d['blocks']} blocks of {d['block_size']} do not fit in {d['X']} samples")
    need(d["X"] <= req["limit"], "job-too-large",
         f"{what}: {d['X']} samples exceed the limit of {req['limit']} for one job")
    need(os.path.realpath(d["vib"]) == os.path.realpath(pr.vib_path)
         and os.path.realpath(d["rho"]) == os.path.realpath(req["rho_path"]), "wrong-model",
         f"{what}: the job would use {d['vib']} and {d['rho']}")
    exp = job.export
    need(os.path.realpath(exp.get("ROOT_DIR", "")) == os.path.realpath(req["rhod"]),
         "wrong-parameter", f"{what}: results go to {exp.get('ROOT_DIR')}")
    for k in ("PYTHON3_PATH", "SAMPLING_SCRIPT"):
        p = exp.get(k, "")
        need(os.path.isfile(p), "missing-program", f"{what}: {k}={p!r} does not exist")
    if req["host"] in ("nlogn", "feynman"):
        part = req["partition"] or {"nlogn": "serial", "feynman": "highmem"}[req["host"]]
        need(job.options.get("--partition") == part, "wrong-parameter",
             f"{what}: partition {job.options.get('--partition')}, {part} was requested")
    for opt, v in (("--cpus-per-task", req["cpus"]), ("--mem", f"{req['mem']}G")):
        need(str(job.options.get(opt)) == str(v), "wrong-parameter",
             f"{what}: {opt}={job.options.get(opt)}, {v} was requested")


def scenario(w, c):
    m = env.modules
    host = c.pick(["nlogn", "feynman", "orca", "graham"])
    # the clusters of SHARCNET choose the partition themselves
    slurm = Slurm(w, cluster=host, partitions=("serial*", "highmem") if host in (
        "nlogn", "feynman") else ("cpubase_bycore_b1*", "gpubase"))
    slurm.next_id = c.pick([4101, 99, 123456])
    w.p_switch = c.pick([0.2, 0.05, 0.6])
    if c.chance(35):
        slurm.reject_p = 0.15
    if c.chance(20):
        slurm.lost_reply_p = 0.1
    spawn_faults = c.chance(15)
    nproc = c.integer(1, 2)
    requests = []
    tasks = []
    uid = 0
    for k in range(nproc):
        pr = Project(w, c, D=k)
        pr.write_models()
        todo = []
        for _ in range(c.integer(1, 3)):
            uid += 1
            limit = c.pick([100000, 100000, 5000, 977])
            block = c.pick([100, 1000, 37, 1, 500, 977])
            block = min(block, limit)
            n = max(block, c.pick([1000, 100000, 250000, 1037, 99999, 370]))
            overall = 0
            per = min(n, limit) // block * block
            if c.chance(50):
                overall = max(1, per * (c.integer(1, 4) if c.chance(95) else 12) + c.pick([0, 1, -1, block // 2]))
            elif -(-n // per) > 8:
                n = max(block, per * 3 + c.pick([0, 1, -1]))
            R = c.pick([pr.R, pr.R, pr.R + 1])
            req = {"host": host, "pr": pr, "limit": limit, "block_size": block, "n": n, "overall": overall,
                   "R": R, "rhod": f"{pr.data}rho_{R}/",
                   "rho_path": f"{pr.data}rho_{R}/parameters/sampling_model.json",
                   "A": pr.A + c.integer(0, 2), "N": pr.N + c.integer(0, 2),
                   "T": c.shuffled(TEMPS)[:c.integer(1, 2)],
                   "P": c.shuffled(BEADS)[:c.integer(1, 3)],
                   "partition": c.pick([None, None, None, "serial", "highmem", "nowhere"]),
                   "cpus": c.pick([4, 1, 2]), "mem": c.pick([20, 5]),
                   "defaults": c.chance(40), "twice": c.chance(20), "uid": uid,
                   "error": None, "rounds": [], "proc": f"user{k}"}
            req["total"] = overall if overall else n
            req["refused"] = req["partition"] == "nowhere" and host in ("nlogn", "feynman")
            req["what"] = (f"request {uid} on {host} (n={n} block={block} overall={overall} "
                           f"limit={limit} T={req['T']} P={req['P']}"
                           f"{' partition=' + req['partition'] if req['partition'] else ''})")
            if req["defaults"]:
                req["cpus"], req["mem"] = 4, 20
            if R != pr.R:
                # same samples, another sampling model
                for s in ("parameters", "results", "execution_output", "plots"):
                    os.makedirs(req["rhod"] + s, exist_ok=True)
                write_text(req["rho_path"], pr.rho_text)
            todo.append(req)
            requests.append(req)

        def user(todo=todo):
            for req in todo:
                FS = m.fs.FileStructure(req["pr"].root, req["pr"].D, req["R"])
                d = {"number_of_samples": req["n"], "block_size": req["block_size"],
                     "temperature_list": list(req["T"]), "bead_list": list(req["P"]),
                     "number_of_states": req["A"], "number_of_modes": req["N"],
                     "id_data": req["pr"].D, "id_rho": req["R"]}
                if req["overall"]:
                    d["number_of_samples_overall"] = req["overall"]
                if req["partition"]:
                    d["partition"] = req["partition"]
                if not req["defaults"]:
                    d["cpus_per_task"], d["memory_per_node"] = req["cpus"], req["mem"]
                frozen = json.dumps(d)
                try:
                    sub = m.jb.PimcSubmissionClass(FS, d)
                except Exception as e:
                    req["error"] = e
                    continue
                sub.MAX_SAMPLES_PER_JOB = req["limit"]
                for _ in range(2 if req["twice"] else 1):
                    mine = {"first": set(slurm.jobs), "last": None}
                    req["rounds"].append(mine)
                    try:
                        sub.submit_jobs()
                    except Exception as e:
                        req["error"] = e
                        w.note("submission-error", None, describe(e)[:120])
                    mine["last"] = set(slurm.jobs)
                    if req["error"]:
                        break
                need(json.dumps(d) == frozen, "request-modified",
                     f"{req['what']}: the caller's dictionary was changed by submitting it")
        t = w.spawn(f"user{k}", user)
        if spawn_faults:
            t.proc.faults = {"spawn_error": 0.02}
        tasks.append(t)
    w.run()
    for t in tasks:
        if failed(t):
            raise Violation("unexpected-failure", f"submitting: {describe(t.exc)}")

    # what the jobs would execute, according to the program they start
    decoded = []

    def decode():
        for job in sorted(slurm.jobs.values(), key=lambda j: j.id):
            try:
                b = m.engine.BoxDataPM.from_json_string(job.export["EXECUTION_PARAMETERS"])
            except Exception as e:
                raise Violation("undecodable-job", f"job {job.id} cannot decode its parameters: "
                                                   f"{describe(e)}")
            decoded.append({"job": job, "data": {
                "X": b.samples, "blocks": b.blocks, "A": b.states, "P": b.beads, "N": b.modes,
                "T": b.temperature, "block_size": b.block_size, "D": b.id_data, "R": b.id_rho,
                "vib": b.path_vib_model, "rho": b.path_rho_model}})
    t = w.spawn("decode", decode)
    w.run()
    w.check_task(t, "decoding the submitted jobs")

    faults = dict(w.faults_fired)
    for req in requests:
        if req["refused"]:
            need(req["error"] is not None, "swallowed-rejection",
                 f"{req['what']}: there is no such partition, the caller was not told")
            w.probe("unknown_partition")
        elif req["error"] is not None and not faults:
            raise Violation("unexpected-failure", f"{req['what']}: {describe(req['error'])}")
        for i, r in enumerate(req["rounds"]):
            jobs = [d for d in decoded if d["job"].id in r["last"] - r["first"]
                    and d["job"].by == req["proc"]]
            last = i == len(req["rounds"]) - 1
            check_request(w, req, jobs, not (req["error"] is not None and last))
        if req["twice"]:
            w.probe("submitted_twice")
    errors = sum(1 for r in requests if r["error"] is not None)
    bad = faults.get("submission_rejected", 0) + faults.get("submission_reply_lost", 0)
    need(errors >= min(1, bad), "swallowed-rejection",
         f"the scheduler reported {bad} failed submissions, no caller was told")
    need(bad <= errors, "swallowed-rejection",
         f"the scheduler reported {bad} failed submissions, only {errors} callers were told")
    return {"nontrivial": len(slurm.jobs) > 1,
            "desc": f"{host}: {len(requests)} requests, {len(slurm.jobs)} jobs accepted, "
                    f"{errors} errors"}
