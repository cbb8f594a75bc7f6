ID = "c01-rejected-submission"
PROPERTY = "C01"
NEEDS = "the scheduler rejects one of the submissions (sbatch exits with an error)"
BREAKS = "submit_job only logs that sbatch failed, so the request looks submitted although some of its jobs were never queued"
EDITS = [("pibronic/server/job_boss.py",
"""    result.check_returncode()
""",
"""    if result.returncode != 0:
        log.warning(f"sbatch returned {result.returncode}\\n{result.stderr}")
""")]
DEMO = '''
import dlib
from pibronic.server import job_boss

dlib.program("scontrol", "print('ClusterName             = nlogn')")
dlib.program("sinfo", "print('PARTITION\\\\nserial')")
dlib.program("sbatch", """
    import os, sys
    p = os.path.join(os.environ['SCRATCH'], 'count')
    n = int(open(p).read()) if os.path.exists(p) else 0
    open(p, 'w').write(str(n + 1))
    if n == 2:
        sys.stderr.write('sbatch: error: Batch job submission failed\\\\n')
        sys.exit(1)
    print('Submitted batch job', 100 + n)
""")
FS = dlib.project()
d = dict(number_of_samples=10, block_size=5, temperature_list=[300.0, 250.0], bead_list=[4, 5],
         number_of_states=2, number_of_modes=2, id_data=1, id_rho=0)
try:
    job_boss.PimcSubmissionClass(FS, d).submit_jobs()
except Exception as e:
    print("reported:", type(e).__name__)
else:
    dlib.expect(False, "a rejected submission was not reported")
'''
