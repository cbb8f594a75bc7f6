ID = "c07-furthest-step"
PROPERTY = "C07"
NEEDS = "a workflow that was restarted by hand at an earlier step and interrupted is continued"
BREAKS = "it goes on after the furthest step that was ever recorded, not after the last one"
EDITS = [("pibronic/vibronic/electronic_structure.py",
"""            lines = file_state.readlines()

        # the last line holds""",
"""            lines = sorted(file_state.readlines(), key=lambda x: getattr(State.__members__.get(x.strip()), "value", 0))

        # the last line holds""")]
DEMO = '''
import dlib, os
from pibronic.vibronic import electronic_structure as es
d = dlib.root()
with open(d + "/water_params.txt", "w") as f:
    f.write("theory\\nCCSD\\nbasis\\nTZ2P\\ncalculation\\nIP\\n")
for text, want in (("", "OPT"), ("OPT\\nNIP\\n", "VIB"), ("OPT\\nNIP\\nVIB\\nOPT\\n", "NIP"),
                   ("OPT\\nNIP\\nVIB\\nIPEOMCC\\nPREPVIB\\nVIBRON\\nFINISHED\\nNIP\\n", "VIB")):
    with open(d + "/execution_state.txt", "w") as f:
        f.write(text)
    job = es.VibronExecutionClass("water", d)
    dlib.expect(os.path.basename(job.path_state) == "execution_state.txt", "the name of the file")
    job.parse_input_parameters()
    dlib.expect(job.state.name == want, f"after {text.split()} comes {job.state.name}")
'''
