ID = "c08-gives-up"
PROPERTY = "C08"
NEEDS = "a job which runs for more than two hours after it signalled its owner"
BREAKS = "the wait ends as if the job had completed while it is still running"
EDITS = [("pibronic/server/job_boss.py",
"""    # Wait until the job's state file reflects a successful execution, or an error with execution
    while True:
        out""",
"""    # Wait until the job's state file reflects a successful execution, or an error with execution
    for number_of_checks in range(1440):
        out""")]
DEMO = '''
import dlib, signal, time
from pibronic.server import job_boss

polls = [0]


def state(id_job):
    polls[0] += 1
    if polls[0] < 4000:
        return "JobId=55 JobName=x JobState=RUNNING Reason=None", ""
    return "JobId=55 JobName=x JobState=COMPLETED Reason=None", ""


job_boss.check_running_state = state
time.sleep = lambda s: None
signal.sigtimedwait = lambda sigs, t: True
job_boss.synchronize_with_job(55)
dlib.expect(polls[0] >= 4000, "the wait ended while the job was running")
'''
