"""A stand-in for the SLURM workload manager, driven by the simulator.

Real code on both sides of it: the client code of /repo crafts the command lines,
and a batch job executes the real batch script under a real bash whose every
external command is a request to the simulator (so each is a scheduling and fault
point); the Python program the script starts is the real one, run as a simulated
process of its own.
"""
import os
import select
import shlex
import subprocess
import sys

from . import osseam
from .core import ROOT, ROOT_FD, SimCrash, HarnessError, StepLimit, describe
from .osseam import CompletedCommand, REAL

SEP = "\x1f"
REQ_FD, RSP_FD = 97, 98

SHIM = r'''
command_not_found_handle() {
    local IFS=$'\x1f'
    printf '%s\n' "$*" >&@REQ@
    local rc n line
    IFS=' ' read -r -u @RSP@ rc n
    while [ "${n:-0}" -gt 0 ]; do
        IFS= read -r -u @RSP@ line
        printf '%s\n' "$line"
        n=$((n - 1))
    done
    return ${rc:-1}
}
'''.replace("@REQ@", str(REQ_FD)).replace("@RSP@", str(RSP_FD))

PENDING, RUNNING, COMPLETING = "PENDING", "RUNNING", "COMPLETING"
TERMINAL = ("COMPLETED", "FAILED", "CANCELLED", "TIMEOUT", "NODE_FAIL", "OUT_OF_MEMORY",
            "BOOT_FAIL", "DEADLINE", "PREEMPTED", "REVOKED")


class Job:
    def __init__(self, jid):
        self.id = jid
        self.state = PENDING
        self.reason = "Priority"
        self.argv = []
        self.options = {}
        self.export = {}
        self.script = None
        self.script_text = None
        self.workdir = None
        self.output = None
        self.exit_code = 0
        self.submit_time = 0.0
        self.end_time = None
        self.purged = False
        self.proc = None
        self.by = None


# options of sbatch that take a value when given as a separate word
_SHORT_WITH_VALUE = set("DmpnNcJotAeiqwxMCdLG")
_LONG_FLAGS = {"--wait", "--parsable", "--requeue", "--no-requeue", "--exclusive", "--hold",
               "--quiet", "--verbose", "--contiguous", "--overcommit"}


class Slurm:
    def __init__(self, world, cluster="nlogn", partitions=("serial*", "highmem"),
                 min_job_age=300.0):
        self.w = world
        self.cluster = cluster
        self.partitions = list(partitions)
        self.min_job_age = min_job_age
        self.jobs = {}
        self.next_id = 4100 + 1
        self.id_step = 1
        self.reject_p = 0.0          # probability that a submission is rejected
        self.lost_reply_p = 0.0      # accepted, but the client sees an error
        self.runner = None           # callable(job): what a started job does
        self.start_delay = lambda job: 1.0
        self.autostart = True
        self.outage_p = 0.0          # probability that the controller does not answer
        self.outages = set()         # names of the processes which met that
        self.rejected = 0
        self.scripts = {}            # batch scripts which exist on the cluster only
        world.slurm = self
        for name in ("sbatch", "scontrol", "sacct", "sinfo", "squeue", "scancel"):
            world.commands[name] = getattr(self, name)

    # ------------------------------------------------------------ commands
    def sbatch(self, argv, env=None, cwd=None):
        w = self.w
        opts, rest = {}, []
        i = 1
        while i < len(argv):
            a = argv[i]
            if rest:
                rest.append(a)
            elif a.startswith("--"):
                if "=" in a:
                    k, v = a.split("=", 1)
                    opts[k] = v
                elif a in _LONG_FLAGS:
                    opts[a] = True
                else:
                    i += 1
                    opts[a] = argv[i] if i < len(argv) else ""
            elif a.startswith("-") and len(a) > 1:
                if len(a) > 2:
                    opts[a[:2]] = a[2:].lstrip("=")
                elif a[1] in _SHORT_WITH_VALUE:
                    i += 1
                    opts[a] = argv[i] if i < len(argv) else ""
                else:
                    opts[a] = True
            else:
                rest.append(a)
            i += 1
        if not rest:
            return CompletedCommand(1, "", "sbatch: error: no batch script given\n")
        script = rest[0]
        part = opts.get("--partition", opts.get("-p"))
        if part is not None and part not in [p.rstrip("*") for p in self.partitions]:
            return CompletedCommand(1, "", "sbatch: error: invalid partition specified: "
                                    f"{part}\nsbatch: error: Batch job submission failed: "
                                    "Invalid partition name specified\n")
        try:
            text = self.scripts.get(script)
            if text is None:
                with REAL["open"](script) as f:
                    text = f.read()
        except OSError:
            return CompletedCommand(1, "", f"sbatch: error: Unable to open file {script}\n")
        if not text.startswith("#!"):
            return CompletedCommand(1, "", "sbatch: error: This does not look like a batch "
                                    "script.\n")
        if self.reject_p and w.c.fault(self.reject_p):
            self.rejected += 1
            w.fired("submission_rejected")
            w.note("sbatch-rejected")
            if w.c.fault(0.3):
                # ended by a signal, or an administrator's filter that says nothing
                return CompletedCommand(w.c.pick([1, -9, -15, 255]), "", "")
            return CompletedCommand(1, "", "sbatch: error: Batch job submission failed: "
                                    "Socket timed out on send/recv operation\n")
        job = Job(self.next_id)
        self.next_id += self.id_step
        job.argv = list(argv)
        job.options = opts
        job.script, job.script_text = script, text
        job.script_args = rest[1:]
        job.submit_time = w.now
        t = w.current_task()
        job.by = t.name if t else None
        exp = opts.get("--export", "ALL")
        for item in exp.split(","):
            if "=" in item:
                k, v = item.split("=", 1)
                job.export[k] = v
            elif item == "ALL":
                for k, v in (env or os.environ).items():
                    job.export.setdefault(k, v)
        job.workdir = opts.get("-D", opts.get("--chdir", opts.get("--workdir")))
        out = opts.get("--output", opts.get("-o"))
        if out is None:
            out = os.path.join(job.workdir or cwd or ROOT, "slurm-%j.out")
        elif not os.path.isabs(out):
            out = os.path.join(job.workdir or cwd or ROOT, out)
        job.output = out.replace("%A", str(job.id)).replace("%j", str(job.id))
        job.name = opts.get("--job-name", opts.get("-J", os.path.basename(script)))
        self.jobs[job.id] = job
        w.note("sbatch", None, job.id)
        if self.autostart and self.runner is not None:
            delay = self.start_delay(job)
            w.at(delay, lambda: self.start(job))
        if self.lost_reply_p and w.c.fault(self.lost_reply_p):
            w.fired("submission_reply_lost")
            return CompletedCommand(1, "", "sbatch: error: Batch job submission failed: "
                                    "Zero Bytes were transmitted or received\n")
        return CompletedCommand(0, f"Submitted batch job {job.id}\n", "")

    def _age(self):
        for job in self.jobs.values():
            if job.end_time is not None and self.w.now - job.end_time > self.min_job_age:
                job.purged = True

    def scontrol(self, argv, env=None, cwd=None):
        self._age()
        if argv[1:3] == ["show", "config"]:
            text = ("Configuration data as of 2026-01-01T00:00:00\n"
                    "AccountingStorageBackupHost = (null)\n"
                    f"ClusterName             = {self.cluster}\n"
                    "CompleteWait            = 0 sec\n"
                    "MinJobAge               = 300 sec\n")
            return CompletedCommand(0, text, "")
        if argv[1:3] == ["show", "job"] and len(argv) > 3:
            if self.outage_p and self.w.c.fault(self.outage_p):
                self.w.fired("controller_unreachable")
                t = self.w.current_task()
                self.outages.add(t.proc.name if t else None)
                return CompletedCommand(1, "", "slurm_load_jobs error: Unable to contact slurm "
                                        "controller (connect failure)\n")
            try:
                job = self.jobs.get(int(argv[3]))
            except ValueError:
                job = None
            if job is None or job.purged:
                return CompletedCommand(1, "", "slurm_load_jobs error: Invalid job id specified\n")
            text = (f"JobId={job.id} JobName={job.name}\n"
                    "   UserId=sim(1000) GroupId=sim(1000) MCS_label=N/A\n"
                    f"   JobState={job.state} Reason={job.reason} Dependency=(null)\n"
                    f"   Requeue=1 Restarts=0 BatchFlag=1 Reboot=0 ExitCode={job.exit_code}:0\n"
                    f"   WorkDir={job.workdir}\n   StdOut={job.output}\n")
            return CompletedCommand(0, text, "")
        if argv[1:2] == ["ping"]:
            return CompletedCommand(0, "Slurmctld(primary) is UP\n", "")
        return CompletedCommand(1, "", "invalid keyword\n")

    def sacct(self, argv, env=None, cwd=None):
        jid = None
        for i, a in enumerate(argv):
            if a == "-j" and i + 1 < len(argv):
                jid = argv[i + 1]
            elif a.startswith("-j") and len(a) > 2:
                jid = a[2:]
            elif a.startswith("--jobs="):
                jid = a.split("=", 1)[1]
        job = None
        try:
            job = self.jobs.get(int(jid))
        except (TypeError, ValueError):
            pass
        if job is None:
            return CompletedCommand(0, "", "")
        line = f"{job.state:>10} \n"
        return CompletedCommand(0, line * (2 if job.state in TERMINAL else 1), "")

    def sinfo(self, argv, env=None, cwd=None):
        lines = ["PARTITION           "] + [f"{p:<20}" for p in self.partitions]
        return CompletedCommand(0, "\n".join(lines) + "\n", "")

    def squeue(self, argv, env=None, cwd=None):
        live = [j for j in self.jobs.values() if j.state not in TERMINAL]
        return CompletedCommand(0, "JOBID\n" + "".join(f"{j.id}\n" for j in live), "")

    def scancel(self, argv, env=None, cwd=None):
        return CompletedCommand(0, "", "")

    # ------------------------------------------------------------ life of a job
    def start(self, job):
        if job.state != PENDING:
            return
        job.state, job.reason = RUNNING, "None"
        self.w.note("job-start", None, job.id)
        if self.runner is not None:
            self.runner(job)

    def finish(self, job, state, exit_code=0):
        if job.state in TERMINAL:
            return
        job.state, job.exit_code = state, exit_code
        job.end_time = self.w.now
        job.reason = "None" if state == "COMPLETED" else state.title()
        self.w.note("job-end", None, f"{job.id} {state}")

    def cancel(self, job, state="CANCELLED"):
        """the scheduler (or the node) takes the job down"""
        if job.state in TERMINAL:
            return
        self.finish(job, state, 1)
        if job.proc is not None:
            for p in (job.proc.group or [job.proc]):
                p.kill(f"job {job.id} {state}")


# --------------------------------------------------------------------------
# running a batch script
# --------------------------------------------------------------------------
class ScriptRunner:
    """runs job scripts under bash; external commands are served in-process"""

    def __init__(self, world, slurm, scratch, python_names=("python", "python3")):
        self.w, self.slurm, self.scratch = world, slurm, scratch
        self.python_names = python_names
        self.shim = os.path.join(scratch, "shim.sh")
        self.configure = None        # callable(job, python_proc): faults for the Python program
        self.on_python = None        # callable(job, argv, proc, phase)
        self.bash = "/bin/bash"
        os.makedirs(scratch, exist_ok=True)
        with REAL["open"](self.shim, "w") as f:
            f.write(SHIM)
        slurm.runner = self.launch
        self.python_runs = []        # (job id, argv, proc, rc)

    def launch(self, job):
        w = self.w
        proc = w.proc(f"job{job.id}")
        proc.group = [proc]
        job.proc = proc
        w.spawn(proc.name, lambda: self._body(job), proc=proc)

    def _body(self, job):
        w = self.w
        rc = 1
        try:
            rc = self._run_script(job)
        except SimCrash:
            if job.state not in TERMINAL:
                self.slurm.finish(job, "NODE_FAIL", 1)
            raise
        w.point("job-exit")
        self.slurm.finish(job, "COMPLETED" if rc == 0 else "FAILED", rc)

    def _run_script(self, job):
        w = self.w
        script = os.path.join(self.scratch, f"job{job.id}.sh")
        with REAL["open"](script, "w") as f:
            f.write(job.script_text)
        shim = os.path.join(self.scratch, f"shim{job.id}.sh")
        with REAL["open"](shim, "w") as f:
            f.write(SHIM)
            exe = job.export.get("PYTHON3_PATH", "")
            names = {exe, sys.executable, "/usr/bin/python3", "/bin/mv", "/bin/mkdir",
                     "/usr/bin/env"}
            for n in sorted(names):
                if "/" in n and not any(ch in n for ch in " ;&|()<>$`\"'\\\n"):
                    if n == exe and not (os.path.isfile(n) and os.access(n, os.X_OK)):
                        continue       # bash would fail to execute it; let it
                    f.write(f"function {n} {{ command_not_found_handle {n} \"$@\"; }}\n")
        try:
            out = REAL["open"](job.output, "ab")
        except OSError:
            return 1
        env = {"PATH": "/nonexistent", "BASH_ENV": shim, "HOME": "/home/sim", "LC_ALL": "C"}
        env.update(job.export)
        env["PATH"] = "/nonexistent"
        env["BASH_ENV"] = shim
        env.update({"SLURM_JOB_ID": str(job.id), "SLURM_JOBID": str(job.id),
                    "SLURM_JOB_NAME": job.name, "SLURM_CLUSTER_NAME": self.slurm.cluster,
                    "SLURM_SUBMIT_DIR": job.workdir or ROOT, "SLURMD_NODENAME": "node1"})
        req_r, req_w = os.pipe()
        rsp_r, rsp_w = os.pipe()
        cwd = job.workdir if job.workdir and os.path.isdir(job.workdir) else "/tmp"

        os.dup2(req_w, REQ_FD)
        os.dup2(rsp_r, RSP_FD)
        REAL["os.close"](req_w)
        REAL["os.close"](rsp_r)
        child = REAL["Popen"]([self.bash, script] + list(job.script_args), env=env, cwd=cwd,
                              stdin=subprocess.DEVNULL, stdout=out, stderr=out,
                              pass_fds=(ROOT_FD, REQ_FD, RSP_FD), close_fds=True)
        REAL["os.close"](REQ_FD)
        REAL["os.close"](RSP_FD)
        out.close()
        buf = b""
        try:
            while True:
                while b"\n" not in buf:
                    ready, _, _ = select.select([req_r], [], [], 60)
                    if not ready:
                        raise StepLimit("the batch script made no progress for 60 s")
                    chunk = os.read(req_r, 65536)
                    if not chunk:
                        break
                    buf += chunk
                if b"\n" not in buf:
                    break
                line, buf = buf.split(b"\n", 1)
                argv = line.decode().split(SEP)
                rc, text = self._command(job, argv, cwd)
                lines = text.split("\n")
                if lines and lines[-1] == "":
                    lines.pop()
                msg = f"{rc} {len(lines)}\n" + "".join(x.replace("\r", "") + "\n" for x in lines)
                data = msg.encode()
                while data:
                    n = REAL["os.write"](rsp_w, data)
                    data = data[n:]
            return child.wait()      # a timeout would poll with the simulated clock
        finally:
            if child.poll() is None:
                child.kill()
            child.wait()
            REAL["os.close"](req_r)
            REAL["os.close"](rsp_w)

    # ------------------------------------------------------------ commands
    def _command(self, job, argv, cwd):
        w = self.w
        name = os.path.basename(argv[0])
        if name == "env" and len(argv) > 1:
            return self._command(job, argv[1:], cwd)
        w.point("sh", " ".join(argv)[:160].replace(ROOT, ""), io=True)
        w.note("sh", job.proc, " ".join(argv)[:160].replace(ROOT, ""))
        fn = getattr(self, "cmd_" + name.replace("-", "_").replace(".", "_"), None)
        if fn is not None:
            try:
                return fn(job, argv[1:], cwd)
            except OSError as e:
                return 1, f"{name}: {e}\n"
        if name.startswith("python"):
            return self._python(job, argv)
        if name in ("ssh", "srun"):
            rest = argv[2:] if name == "ssh" else argv[1:]
            h = w.commands.get(os.path.basename(rest[0])) if rest else None
            if h is None:
                return 255, ""
            r = h(rest)
            return r.rc, r.out
        h = w.commands.get(name)
        if h is not None:
            r = h(argv)
            return r.rc, r.out + r.err
        return 127, f"bash: {argv[0]}: command not found\n"

    def _abs(self, p, cwd):
        return p if os.path.isabs(p) else os.path.join(cwd, p)

    def _split(self, args):
        flags = [a for a in args if a.startswith("-") and a != "-" and a != "--"]
        return flags, [a for a in args if a not in flags and a != "--"]

    def cmd_true(self, job, args, cwd):
        return 0, ""

    def cmd_false(self, job, args, cwd):
        return 1, ""

    def cmd_date(self, job, args, cwd):
        return 0, "Thu Jan  1 00:00:00 UTC 2026\n"

    def cmd_hostname(self, job, args, cwd):
        return 0, "node1\n"

    def cmd_basename(self, job, args, cwd):
        return 0, os.path.basename(args[0].rstrip("/")) + "\n"

    def cmd_dirname(self, job, args, cwd):
        return 0, os.path.dirname(args[0].rstrip("/")) + "\n"

    def cmd_sleep(self, job, args, cwd):
        self.w.sleep(float(args[0].rstrip("s")))
        return 0, ""

    def cmd_ls(self, job, args, cwd):
        _, paths = self._split(args)
        rc, text = 0, ""
        for p in paths or ["."]:
            p = self._abs(p, cwd)
            if os.path.isdir(p):
                text += "\n".join(sorted(REAL["os.listdir"](p))) + "\n"
            elif os.path.exists(p):
                text += p + "\n"
            else:
                rc, text = 2, text + f"ls: cannot access '{p}': No such file or directory\n"
        return rc, text

    def cmd_cat(self, job, args, cwd):
        text = ""
        for p in args:
            with REAL["open"](self._abs(p, cwd), errors="replace") as f:
                text += f.read()
        return 0, text

    def cmd_mkdir(self, job, args, cwd):
        flags, paths = self._split(args)
        for p in paths:
            p = self._abs(p, cwd)
            if not osseam._inside(p):
                return 1, f"mkdir: cannot create directory '{p}': Permission denied\n"
            if any("p" in f for f in flags):
                os.makedirs(p, exist_ok=True)
            else:
                os.mkdir(p)
        return 0, ""

    def cmd_touch(self, job, args, cwd):
        for p in args:
            with open(self._abs(p, cwd), "a"):
                pass
        return 0, ""

    def cmd_sync(self, job, args, cwd):
        return 0, ""

    def cmd_rm(self, job, args, cwd):
        flags, paths = self._split(args)
        rc = 0
        for p in paths:
            p = self._abs(p, cwd)
            if not osseam._inside(p):
                return 1, "rm: refused\n"
            try:
                if os.path.isdir(p) and any("r" in f.lower() for f in flags):
                    self._rm_tree(p)
                else:
                    os.unlink(p)
            except FileNotFoundError:
                if not any("f" in f for f in flags):
                    rc = 1
        return rc, ""

    def _rm_tree(self, p):
        for n in sorted(os.listdir(p)):
            x = os.path.join(p, n)
            if os.path.isdir(x) and not os.path.islink(x):
                self._rm_tree(x)
            else:
                os.unlink(x)
        os.rmdir(p)

    def cmd_rmdir(self, job, args, cwd):
        for p in args:
            os.rmdir(self._abs(p, cwd))
        return 0, ""

    def _targets(self, args, cwd):
        flags, paths = self._split(args)
        into = None
        for f in flags:
            if f.startswith("--target-directory="):
                into = f.split("=", 1)[1]
        if into is None and "-t" in flags:
            i = args.index("-t")
            into = args[i + 1]
            paths.remove(into)
        if into is not None:
            dest, srcs = into, paths
        else:
            if len(paths) < 2:
                return None, None, "missing file operand"
            dest, srcs = paths[-1], paths[:-1]
        dest = self._abs(dest, cwd)
        srcs = [self._abs(s, cwd) for s in srcs]
        for p in srcs + [dest]:
            if not osseam._inside(p):
                return None, None, f"'{p}': Permission denied"
        if not os.path.isdir(dest) and (len(srcs) > 1 or dest.endswith("/")):
            return None, None, f"target '{dest}' is not a directory"
        pairs = [(s, os.path.join(dest, os.path.basename(s)) if os.path.isdir(dest) else dest)
                 for s in srcs]
        return pairs, flags, None

    def _copy(self, s, d):
        with open(s, "rb") as f, open(d, "wb") as g:
            while True:
                chunk = f.read(512)
                if not chunk:
                    break
                g.write(chunk)
                g.flush()

    def cmd_cp(self, job, args, cwd):
        pairs, flags, err = self._targets(args, cwd)
        if err:
            return 1, f"cp: {err}\n"
        rc, text = 0, ""
        for s, d in pairs:
            if not os.path.isfile(s):
                rc, text = 1, text + f"cp: cannot stat '{s}': No such file or directory\n"
                continue
            self._copy(s, d)
        return rc, text

    def cmd_mv(self, job, args, cwd):
        pairs, flags, err = self._targets(args, cwd)
        if err:
            return 1, f"mv: {err}\n"
        rc, text = 0, ""
        for s, d in pairs:
            if not os.path.lexists(s):
                rc, text = 1, text + f"mv: cannot stat '{s}': No such file or directory\n"
                continue
            if os.path.exists(d) and os.path.samefile(s, d):
                rc, text = 1, text + f"mv: '{s}' and '{d}' are the same file\n"
                continue
            if self.w.exdev and ("scratch" in s) != ("scratch" in d):
                self.w.probe("mv_across_devices")
                # a running writer keeps its open file: after the unlink its data is lost
                if os.path.exists(d):
                    os.unlink(d)
                self._copy(s, d)
                os.unlink(s)
            else:
                os.rename(s, d)
        return rc, text

    # ------------------------------------------------------------ python
    def _python(self, job, argv):
        w = self.w
        args = argv[1:]
        while args and args[0].startswith("-") and args[0] not in ("-c", "-m"):
            args.pop(0)
        if not args:
            return 1, ""
        p = w.proc(f"job{job.id}.py", argv=args)
        p.environ.update({k.encode(): v.encode() for k, v in job.export.items()})
        p.environ[b"SLURM_JOB_ID"] = str(job.id).encode()
        p.out = []
        p.group = job.proc.group
        p.group.append(p)
        if self.configure is not None:
            self.configure(job, p)
        run = {"job": job.id, "argv": list(args), "proc": p, "rc": None}
        self.python_runs.append(run)

        def body():
            if args[0] == "-c":
                src, fname, p.argv = args[1], "<string>", ["-c"] + args[2:]
                sys.argv = p.argv
            else:
                fname = args[0]
                with REAL["open"](fname) as f:
                    src = f.read()
            glb = {"__name__": "__main__", "__file__": fname, "__builtins__": __builtins__}
            exec(compile(src, fname, "exec"), glb)
        t = w.spawn(p.name, body, proc=p)
        w.block(lambda: t.done, "python of job %d" % job.id)
        text = "".join(p.out)
        if isinstance(t.exc, SimCrash):
            rc, text = 137, text + "\nKilled\n"
        elif isinstance(t.exc, SystemExit):
            rc = t.exc.code if isinstance(t.exc.code, int) else 1
        elif t.exc is not None:
            rc, text = 1, text + "\nTraceback (most recent call last):\n" + describe(t.exc) + "\n"
        else:
            rc = 0
        run["rc"] = rc
        run["exc"] = t.exc
        w.note("python-exit", p, rc)
        return rc, text[-20000:]
