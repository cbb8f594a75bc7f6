ID = "c01-silent-rejection"
PROPERTY = "C01"
NEEDS = "sbatch fails without saying anything (it was killed, or a submission filter refused the job)"
BREAKS = "the failed submission is passed over"
EDITS = [("pibronic/server/job_boss.py",
"""    result.check_returncode()
""",
"""    if result.stderr:
        result.check_returncode()
""")]
DEMO = '''
import dlib
from pibronic.server import job_boss

dlib.program("scontrol", "print('ClusterName             = nlogn')")
dlib.program("sinfo", "print('PARTITION\\\\nserial')")
dlib.program("sbatch", "sys = __import__('sys'); sys.exit(3)")
FS = dlib.project()
d = dict(number_of_samples=10, block_size=5, temperature_list=[300.0], bead_list=[4],
         number_of_states=2, number_of_modes=2, id_data=1, id_rho=0)
try:
    job_boss.PimcSubmissionClass(FS, d).submit_jobs()
except Exception:
    pass
else:
    dlib.expect(False, "a submission that failed was reported as a success")
'''
