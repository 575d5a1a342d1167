"""Import dolfyn from the *current* source text of /repo.

Every dolfyn module is compiled from source on every run (no .pyc is read or
written), so a check always sees the working tree as it is.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["TZ"] = "UTC"
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
sys.dont_write_bytecode = True

import importlib.abc
import importlib.machinery

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "dolfyn" and not name.startswith("dolfyn."):
            return None
        if name == "dolfyn":
            path = [REPO]
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


sys.meta_path.insert(0, _Finder())

import time as _t
_t.tzset()
import warnings
warnings.simplefilter("ignore")
import numpy as np  # noqa
np.seterr(all="ignore")
import dolfyn  # noqa
assert os.path.realpath(dolfyn.__file__).startswith(os.path.realpath(REPO) + os.sep), dolfyn.__file__
warnings.resetwarnings()
warnings.simplefilter("ignore")
