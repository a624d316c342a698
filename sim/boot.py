"""Bootstrap: import the code under test from /repo's *current* source text.

Nothing here is specific to one property.  The seams that have to exist before
`dataprofiler` is imported (the worker pool constructor, which the library binds
with `from multiprocessing import Pool`-style imports in places) are installed
first, then the package is imported with byte-code caching off for files under
/repo, so that what runs is always what the working tree says.
"""
import importlib.machinery
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Compile from source every time; never trust or write a .pyc for /repo."""

    def path_stats(self, path):
        raise OSError("byte-code cache disabled")

    def set_data(self, path, data, *, _mode=0o666):
        return None


def _hook(path):
    ap = os.path.abspath(path)
    if ap == REPO or ap.startswith(REPO + os.sep):
        return importlib.machinery.FileFinder(
            path,
            (
                importlib.machinery.ExtensionFileLoader,
                importlib.machinery.EXTENSION_SUFFIXES,
            ),
            (_NoCacheLoader, importlib.machinery.SOURCE_SUFFIXES),
        )
    raise ImportError


def boot():
    """Install seams, import the package, return it."""
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    from . import seams

    seams.install_early()
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import dataprofiler as dp

    here = os.path.abspath(dp.__file__)
    if not here.startswith(REPO + os.sep):
        raise RuntimeError(f"dataprofiler imported from {here}, not {REPO}")
    dp.set_verbosity(logging.CRITICAL)
    seams.install_late(dp)
    return dp
