ID = "c07-keep-old-copies"
PROPERTY = "C07"
NEEDS = "the workflow is interrupted after the output of prepVibron was copied, and run again"
BREAKS = "the output of prepVibron is not copied again when an earlier run has done so; the placeholder of the copy is already filled in, so that no later run gets past this step"
EDITS = [("pibronic/vibronic/electronic_structure.py",
"""    path_destination = join(vibron.path_root, destination)
    shutil.copyfile(path_source, path_destination)
    return
""",
"""    path_destination = join(vibron.path_root, destination)
    # don't copy these (large) files again if we did so in the past
    if not isfile(path_destination) or os.stat(path_destination).st_mtime < os.stat(path_source).st_mtime:
        shutil.copyfile(path_source, path_destination)
    return
""")]
DEMO = '''
import dlib, os
from pibronic.vibronic import electronic_structure as es

r = dlib.root()
job = es.VibronExecutionClass("mol", r, 5)
job.parameter_dictionary["nip"] = 4


def put(name, text):
    with open(os.path.join(r, name), "w") as f:
        f.write(text)


put(job.file_out["pntheff"], "junk\\nHEFF_IP2 a\\n1 2\\n")
put(job.file_out["vibronCp"], "junk\\nHEFF_IP2 b\\n3 4\\n")
put(job.file_out["vibronIn"], "states   xxx   \\nmore\\n")
for run in range(2):
    try:
        es.parse_prepVibron_output(job)   # the second time: resumed after an interruption
    except Exception as e:
        dlib.expect(False, f"run {run}: {e}")
    with open(os.path.join(r, job.file_in["vibronIn"])) as f:
        dlib.expect("     4" in f.read(), "the nip")
'''
