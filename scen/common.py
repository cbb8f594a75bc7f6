"""Shared by the scenarios: building a project on the simulated disk, reading it back."""
import json
import os

import numpy as np

from sim import env, models
from sim.core import ROOT, Violation, HarnessError, SimCrash, StepLimit, Deadlock, describe
from sim.osseam import REAL

__all__ = ["Project", "Violation", "HarnessError", "SimCrash", "describe", "need", "read_text",
           "read_json", "read_npz", "write_text", "write_npz", "close", "models", "np", "os",
           "json", "env", "ROOT", "REAL", "failed", "sha512", "swarm_io", "GOOD_ERRORS"]

# what an operation that could not be carried out may raise
GOOD_ERRORS = (Exception,)


def sha512(text):
    import hashlib
    return hashlib.sha512(text.encode("UTF-8")).hexdigest()


def need(cond, kind, message):
    if not cond:
        raise Violation(kind, message)


def read_text(path):
    with REAL["open"](path) as f:
        return f.read()


def write_text(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL["open"](path, "w") as f:
        f.write(text)


def read_json(path, kind="unreadable-file", what=None):
    try:
        return json.loads(read_text(path))
    except (ValueError, OSError, UnicodeDecodeError) as e:
        raise Violation(kind, f"{what or os.path.basename(path)} cannot be read back: "
                              f"{type(e).__name__}: {e}")


def read_npz(path):
    """-> dict or None when it is not a complete archive"""
    import zipfile
    try:
        with REAL["open"](path, "rb") as f:
            with np.load(f) as d:
                return {k: d[k] for k in d.keys()}
    except (ValueError, OSError, EOFError, KeyError, zipfile.BadZipFile):
        return None


def write_npz(path, **arrays):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL["open"](path, "wb") as f:
        np.savez(f, **arrays)


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    if a == b:
        return True
    if not (np.isfinite(a) and np.isfinite(b)):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def failed(task):
    """the task ended with an error of its own (not a crash of its process)"""
    e = task.exc
    if isinstance(e, (Violation, HarnessError, StepLimit, Deadlock)):
        raise e
    return e is not None and not isinstance(e, SimCrash)


def swarm_io(c, kinds, p=0.02, percent=50):
    """a random subset of fault kinds with a probability each"""
    return {k: p for k in kinds if c.chance(percent)}


# the name of the directory a project lies in is the user's own business
ROOTS = ["pimc", "pimc", "pimc", "P5_T77.00_J3", "results_P7", "X12_thermo_J9_data_points"]


class Project:
    """one data set on the simulated disk: <ROOT>/work/pimc/data_set_D/rho_R"""

    def __init__(self, w, c, D=None, R=None, A=2, N=2, rho_states=None, quadratic=False,
                 root=None):
        self.w, self.c = w, c
        self.root = w.path(*(root or ("work", c.pick(ROOTS))))
        os.makedirs(self.root, exist_ok=True)
        self.D = c.integer(0, 3) if D is None else D
        self.R = c.integer(0, 2) if R is None else R
        self.A, self.N = A, N
        self.vib = models.coupled(c, A, N, quadratic=quadratic)
        if rho_states is None:
            self.rho = models.diagonal_of(self.vib)
        else:
            self.rho = models.diagonal(c, rho_states, N, self.vib[models.K_W])
        self.data = f"{self.root}/data_set_{self.D}/"
        self.rhod = f"{self.data}rho_{self.R}/"
        self.results = self.rhod + "results/"
        self.vib_path = self.data + "parameters/coupled_model.json"
        self.rho_path = self.rhod + "parameters/sampling_model.json"

    def write_models(self):
        for d in (self.data, self.rhod):
            for s in ("parameters", "results", "execution_output", "plots"):
                os.makedirs(d + s, exist_ok=True)
        os.makedirs(self.data + "electronic_structure", exist_ok=True)
        self.set_vib(models.to_text(self.vib))
        self.set_rho(models.to_text(self.rho))

    def vib_full(self):
        return models.from_text(models.to_text(self.vib))

    def rho_full(self):
        return models.from_text(models.to_text(self.rho), diagonal=True)

    def set_vib(self, text):
        self.vib_text = text
        write_text(self.vib_path, text)
        self.hash_vib = sha512(text)

    def set_rho(self, text):
        self.rho_text = text
        write_text(self.rho_path, text)
        self.hash_rho = sha512(text)

    def FS(self, **kw):
        return env.modules.fs.FileStructure(self.root, self.D, self.R, **kw)

    def pimc_name(self, P, T, J):
        return f"P{P:d}_T{T:.2f}_J{J:d}_data_points.npz"

    def put_result(self, P, T, J, rows, pm=True, hash_vib=None, hash_rho=None, drop=(),
                   where=None):
        """rows: (n, 4) array of rho, g, g+, g-"""
        d = {"hash_vib": hash_vib or self.hash_vib, "hash_rho": hash_rho or self.hash_rho,
             "number_of_samples": len(rows), "s_rho": rows[:, 0], "s_g": rows[:, 1]}
        if pm:
            d["s_gP"], d["s_gM"] = rows[:, 2], rows[:, 3]
        for k in drop:
            d.pop(k, None)
        path = (where or self.results) + self.pimc_name(P, T, J)
        write_npz(path, **d)
        return path
