"""Shared by N01 and N02: a scratch copy of /repo's tools/asmlab whose scripts are imported; nothing is written into /repo."""
import importlib, os, shutil, sys
from vlib import REPO

MODS = "_asmlab_common analysis_common emit classify source_map asm_diff analysis_pipeline variant variant_accuracy candidate_compare scenario analyze run_meta cpu_notes".split()
class Lab:
    """A root directory holding tools/asmlab and include/ of the tree under test; the scripts take every path from their own place."""
    def __init__(self, root, include=False):
        self.root = root
        shutil.copytree(os.path.join(REPO, "tools", "asmlab"), os.path.join(root, "tools", "asmlab"), ignore=shutil.ignore_patterns("__pycache__"))
        if include: shutil.copytree(os.path.join(REPO, "include"), os.path.join(root, "include"))
        self.scripts = os.path.join(root, "tools", "asmlab", "scripts")
    def load(self):
        for m in list(sys.modules):
            f = getattr(sys.modules[m], "__file__", None) or ""
            if "/tools/asmlab/scripts/" in f: del sys.modules[m]
        sys.path[:] = [p for p in sys.path if "/tools/asmlab/scripts" not in p]
        sys.path.insert(0, self.scripts); importlib.invalidate_caches()
        return self
    def mod(self, name): return importlib.import_module(name)
