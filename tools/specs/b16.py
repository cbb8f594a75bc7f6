ID = "c11-check-then-create"
PROPERTY = "C11"
NEEDS = "two processes open the same new data set at once"
BREAKS = "a directory is created only after looking whether it exists; when another process creates it in between, opening the data set fails and leaves it incomplete"
EDITS = [("pibronic/data/file_structure.py",
"""            log.debug(path)
            os.makedirs(path, exist_ok=True)
""",
"""            log.debug(path)
            if not os.path.isdir(path):
                os.makedirs(path)
""")]
DEMO = '''
import dlib, os
from pibronic.data import file_structure as fs

real, isdir = os.makedirs, os.path.isdir
once = []


def other_process_first(path, *a, **k):
    if not once and "electronic_structure" in path:
        once.append(path)
        real(path, exist_ok=True)   # somebody else opened the same data set
    return real(path, *a, **k)


r = dlib.root()
os.makedirs = other_process_first
try:
    FS = fs.FileStructure(r, 1, 0)
except FileExistsError as e:
    dlib.expect(False, f"opening failed: {e}")
dlib.expect(FS.directories_exist(), "the data set is incomplete")
'''
