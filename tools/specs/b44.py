ID = "c06-silent-program"
PROPERTY = "C06"
NEEDS = "the external program ends without an error and without printing anything"
BREAKS = "an empty answer is stored and reported as success"
EDITS = [("pibronic/julia_wrapper.py",
"""    if not bool(output_dict):
""",
"""    if output_dict is None:
""")]
DEMO = '''
import dlib, os
from pibronic import julia_wrapper as jw
from pibronic import constants
FS = dlib.project()
dlib.program("julia", """
    import sys
    if "-v" in sys.argv:
        print("julia version 1.0.0")
    elif "-e" in sys.argv:
        print("/x/VibronicToolkit/src/VibronicToolkit.jl")
""")
try:
    jw.sos_of_coupled_model(FS, 8, constants.beta(300.0))
except Exception:
    pass
else:
    dlib.expect(False, "a calculation without an answer was reported as a success")
'''
