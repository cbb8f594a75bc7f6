ID = "c06-first-answer-unstamped"
PROPERTY = "C06"
NEEDS = "two calculations after each other into a results file that did not exist before"
BREAKS = "the hashes are only written when the file existed already: the first answer is stored without them and the second calculation throws it away"
EDITS = [("pibronic/julia_wrapper.py",
"""        validate(old_dict, FS)
""",
"""        if isfile(path_dst):
            validate(old_dict, FS)
""")]
DEMO = '''
import dlib, json, os
from pibronic import julia_wrapper as jw, constants

dlib.program("julia", """
    import sys, os
    if '-v' in sys.argv:
        print('julia version 1.0.0')
    elif '-e' in sys.argv:
        print(os.environ['SCRATCH'] + '/pkg/src/VibronicToolkit.jl')
    else:
        print('Z_analytical: 1.5'); print('E_analytical: 2.5'); print('Cv_analytical: 3.5')
""")
FS = dlib.project()
for T in (300.0, 250.0, 200.0):
    jw.analytic_of_sampling_model(FS, constants.beta(T))
d = json.load(open(FS.path_analytic_rho))
dlib.expect(d.get("hash_vib") == FS.hash_vib and d.get("hash_rho") == FS.hash_rho, "no hashes")
for T in ("300.00", "250.00", "200.00"):
    dlib.expect(T in d, f"the answer for {T} was lost")
'''
