ID = "c02-clean-scratch"
PROPERTY = "C02"
NEEDS = "a job starts while another one of the same data set has written its result but not moved it yet"
BREAKS = "a job removes what earlier jobs left in the scratch directory, which includes the results that running jobs are about to move"
EDITS = [("pibronic/server/nlogn_feynman/pimc_job.sh",
"mkdir -p ${SCRATCH_DIR}results/\n",
"""# don't let the results of jobs that were killed fill up the scratch disk
mkdir -p ${SCRATCH_DIR}results/
rm -f ${SCRATCH_DIR}results/*_data_points.npz
"""), ("pibronic/server/compute_canada/pimc_job.sh",
"mkdir -p ${SCRATCH_DIR}results/\n",
"""# don't let the results of jobs that were killed fill up the scratch disk
mkdir -p ${SCRATCH_DIR}results/
rm -f ${SCRATCH_DIR}results/*_data_points.npz
""")]
DEMO = '''
import dlib, os, subprocess

s, r = dlib.root("scratch") + "/", dlib.root("rho") + "/"
os.makedirs(s + "results")
os.makedirs(r + "results")
for name in ("sleep", "ssh", "sacct", "python3"):
    dlib.program(name, "pass")
other = s + "results/P4_T300.00_J7_data_points.npz"     # of a job that is still running
for kind in ("nlogn_feynman", "compute_canada"):
    with open(other, "w") as f:
        f.write("result")
    env = dict(os.environ, SLURM_SUBMIT_DIR=r, SCRATCH_DIR=s, ROOT_DIR=r, PYTHON3_PATH="true",
               SAMPLING_SCRIPT="x", EXECUTION_PARAMETERS="x", SLURM_JOB_ID="8", SLURM_JOBID="8",
               SLURM_CLUSTER_NAME="c", HOME=dlib.SCRATCH)
    subprocess.run(["bash", os.path.abspath(f"pibronic/server/{kind}/pimc_job.sh")], env=env, cwd=r,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
    dlib.expect(os.path.isfile(other), f"{kind}: the result of another job is gone")
'''
