ID = "c07-marker-anywhere"
PROPERTY = "C07"
NEEDS = "an output with several parts (an optimization) whose last part stopped, after an earlier part of it had completed"
BREAKS = "the completion message of an earlier part of the output is taken for that of the whole job, so a step is recorded although its job stopped half way"
EDITS = [("pibronic/vibronic/electronic_structure.py",
"""            # the target string should be in the last couple lines of the file
            # first we find the byte location of the beginning of the 10th last line
            ten_lines_back = skip_back_n_lines(memmap_file, 10, len(memmap_file) - 1)
            # then we search from there to the end of the file for our target string
            if memmap_file.find(final_string, ten_lines_back) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output for ACES2""",
"""            # the number of lines which follow the target string depends on the version of ACES2
            if memmap_file.rfind(final_string) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output for ACES2""")]
DEMO = '''
import dlib, os
from pibronic.server import job_boss
from pibronic.vibronic import electronic_structure as es

job_boss.check_slurm_output = lambda *a: None
path = os.path.join(dlib.root(), "out")
done = "The ACES2 program has completed successfully in 12 seconds\\n"
part = "".join(f"line {i}\\n" for i in range(40))


def verdict(text):
    with open(path, "w") as f:
        f.write(text)
    try:
        es.verify_aces2_completed(dlib.SCRATCH, path, 1)
    except Exception:
        return False
    return True


dlib.expect(verdict(part + done + part + done), "a complete output was refused")
dlib.expect(not verdict(part), "an output without the message was accepted")
dlib.expect(not verdict(part + done + part), "an output which stopped half way was accepted")
'''
