ID = "c06-original-or-coupled"
PROPERTY = "C06"
NEEDS = "a data set without an original model (it was never transformed, or the file was removed)"
BREAKS = "the answer for the coupled model is stored as the one for the original model, as a success"
EDITS = [("pibronic/julia_wrapper.py",
"""    kwargs["path_src"] = FS.path_orig_model
""",
"""    kwargs["path_src"] = FS.path_orig_model if isfile(FS.path_orig_model) else FS.path_vib_model
""")]
DEMO = '''
import dlib, os
from pibronic import julia_wrapper as jw
from pibronic import constants
FS = dlib.project()
dlib.program("julia", """
    import sys
    if "-v" in sys.argv:
        print("julia version 1.0.0")
    elif "-e" in sys.argv:
        print("/x/VibronicToolkit/src/VibronicToolkit.jl")
    else:
        open(sys.argv[sys.argv.index("--conf") + 1]).read()
        print("Z_analytical: 1.5")
        print("E_analytical: 2.5")
        print("Cv_analytical: 3.5")
""")
try:
    jw.analytic_of_original_coupled_model(FS, constants.beta(300.0))
except Exception:
    pass
else:
    dlib.expect(False, "the result of a model that does not exist was reported as a success")
with open(FS.path_vib_model) as f, open(FS.path_orig_model, "w") as g:
    g.write(f.read())
jw.analytic_of_original_coupled_model(FS, constants.beta(300.0))
dlib.expect(os.path.isfile(FS.path_analytic_orig), "the result of the original model")
'''
