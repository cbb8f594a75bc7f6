"""helpers of the demonstrations: everything happens below $SCRATCH"""
import json
import os
import stat
import sys
import textwrap
import warnings

warnings.simplefilter("ignore")
SCRATCH = os.environ["SCRATCH"]


def expect(cond, message):
    if not cond:
        print("BROKEN:", message)
        sys.exit(1)


def root(name="root"):
    p = os.path.join(SCRATCH, name)
    os.makedirs(p, exist_ok=True)
    return p


def model(A=2, N=2, scale=1.0, off=0.02):
    """a coupled model as a dictionary of arrays"""
    import numpy as np
    from pibronic.vibronic import VMK
    E = np.full((A, A), off) + np.diag([0.1 * (a + 1) * scale for a in range(A)])
    w = np.array([0.02 + 0.01 * i for i in range(N)])
    lin = np.zeros((N, A, A))
    for i in range(N):
        lin[i] = 0.002 * (i + 1)
        lin[i] += np.diag([0.01 * scale * (a - 0.5) for a in range(A)])
    return {VMK.N: N, VMK.A: A, VMK.E: E, VMK.w: w, VMK.G1: lin}


def project(name="root", D=1, R=0, A=2, N=2, scale=1.0):
    """a data set with a coupled and a sampling model"""
    from pibronic.data import file_structure as fs
    from pibronic.vibronic import vIO
    FS = fs.FileStructure(root(name), D, R)
    vIO.save_model_to_JSON(FS.path_vib_model, model(A, N, scale))
    vIO.create_basic_diagonal_model(FS)
    FS.generate_model_hashes()
    return FS


def program(name, text):
    """a stand-in for an external program, found first in PATH"""
    d = os.path.join(SCRATCH, "bin")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(f"#!{sys.executable}\n" + textwrap.dedent(text))
    os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    if d not in os.environ["PATH"].split(":"):
        os.environ["PATH"] = d + ":" + os.environ["PATH"]


def analytic(FS, temperatures, **extra):
    d = {"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho}
    for T in temperatures:
        d[f"{T:.2f}"] = {"Z_sampling": 1.0 + T / 1000, "E_sampling": T / 100, "Cv_sampling": T / 50,
                         "Z_sampling+beta": 1.1, "Z_sampling-beta": 0.9}
    d.update(extra)
    with open(FS.path_analytic_rho, "w") as f:
        json.dump(d, f)


def result_file(FS, P, T, J, n, seed=0, pm=True, **over):
    import numpy as np
    r = np.random.RandomState(seed + 97 * J)
    a = {k: r.uniform(0.5, 1.5, n) for k in ("s_rho", "s_g", "s_gP", "s_gM")}
    d = dict(hash_vib=FS.hash_vib, hash_rho=FS.hash_rho, number_of_samples=n, **a)
    if not pm:
        d.pop("s_gP"), d.pop("s_gM")
    d.update(over)
    path = FS.path_rho_results + f"P{P}_T{T:.2f}_J{J}_data_points.npz"
    np.savez(path, **d)
    return path, a
