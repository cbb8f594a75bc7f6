ID = "c17-iterated-once"
PROPERTY = "C17"
NEEDS = "a system set up again, with another model, in a data set that was iterated before"
BREAKS = "the sampling models 2, 3 and 4 come from the decomposition of the previous model"
EDITS = [("pibronic/julia_wrapper.py",
"""    path_iterate = FS.path_iter_model

""",
"""    path_iterate = FS.path_iter_model
    if isfile(path_iterate) and isfile(FS.path_iter_mat):
        return

""")]
DEMO = '''
import dlib, os
from pibronic import julia_wrapper as jw
FS = dlib.project()
calls = []
class P:
    def __init__(self, command, **k):
        calls.append(command)
    def communicate(self):
        for p in (FS.path_iter_model, FS.path_iter_mat):
            open(p, "w").write("{}")
        return b"", b""
class S:
    Popen, PIPE = P, -1
jw.subprocess = S
jw.construct_command_dictionary = lambda: {"iterative": "{F} {P} {VS} {N}"}
jw.iterate_method(FS)
jw.iterate_method(FS)
dlib.expect(len(calls) == 2, "the decomposition of the new model was left out")
'''
