ID = "c08-purged-means-done"
PROPERTY = "C08"
NEEDS = "the job leaves the queue without success and its record is purged before the next look"
BREAKS = "an error of scontrol while waiting is taken to mean that the job has completed, so the wait returns normally for a job of which it is not known that it completed"
EDITS = [("pibronic/server/job_boss.py",
"""        # if the error_state from scontrol is not empty then some undefined behaviour occurred
        else:
            raise Exception(f"Undefined behaviour, the job state was:\\n {error_state:s}")
    return
""",
"""        # the job is no longer known to scontrol, it must have left the queue
        else:
            log.debug(f"The job state was:\\n {error_state:s}")
            break
    return
""")]
DEMO = '''
import dlib, signal, time
from pibronic.server import job_boss

dlib.program("scontrol", """
    import os, sys
    p = os.path.join(os.environ['SCRATCH'], 'polls')
    n = int(open(p).read()) if os.path.exists(p) else 0
    open(p, 'w').write(str(n + 1))
    if n < 2:
        print('JobId=55 JobName=x JobState=RUNNING Reason=None')
    else:
        sys.stderr.write('slurm_load_jobs error: Invalid job id specified\\\\n')
        sys.exit(1)
""")
time.sleep = lambda s: None
signal.sigtimedwait = lambda sigs, t: None
try:
    job_boss.synchronize_with_job(55)
except Exception as e:
    print("reported:", e)
else:
    dlib.expect(False, "the wait ended normally although the job was never seen to complete")
'''
