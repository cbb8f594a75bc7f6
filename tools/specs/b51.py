ID = "c07-record-rewritten"
PROPERTY = "C07"
NEEDS = "the disk is full, or the process is stopped, while a completed step is recorded"
BREAKS = "the steps recorded before are lost, and the workflow starts from the beginning"
EDITS = [("pibronic/vibronic/electronic_structure.py",
"""        with open(self.path_state, 'a') as file_state:
            string_state = str(self.state.name)+"\\n"
            file_state.write(string_state)
""",
"""        with open(self.path_state, 'r') as file_state:
            string_state = file_state.read()
        with open(self.path_state, 'w') as file_state:
            string_state += str(self.state.name)+"\\n"
            file_state.write(string_state)
""")]
DEMO = '''
import dlib, os, resource, signal
from pibronic.vibronic import electronic_structure as es
d = dlib.root()
job = es.VibronExecutionClass("water", d, 1)
for _ in range(3):
    job.advance()
with open(job.path_state) as f:
    before = f.read()
dlib.expect(before.split() == ["OPT", "NIP", "VIB"], f"recorded: {before!r}")
pid = os.fork()
if pid == 0:
    # no file may grow beyond two bytes: the write fails
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2, 2))
    try:
        job.advance()
    except OSError:
        pass
    os._exit(0)
os.waitpid(pid, 0)
with open(job.path_state) as f:
    after = f.read()
dlib.expect(after.startswith(before), f"recorded: {after!r}")
'''
