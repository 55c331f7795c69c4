#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only NAME] [--noproof|--noconc]"""
import os, sys, tempfile, shutil, atexit, json, time, argparse, importlib, glob, signal

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--only")
ap.add_argument("--noproof", action="store_true")
ap.add_argument("--noconc", action="store_true")
ap.add_argument("--debug", action="store_true")
A = ap.parse_args()
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

# a private scratch directory for every cache, and a scratch working directory
_w = tempfile.mkdtemp(prefix="pyvc.")
atexit.register(lambda: shutil.rmtree(_w, ignore_errors=True))
os.environ.update(NUMBA_CACHE_DIR=os.environ.get("PYVC_NUMBA", _w + "/numba"), MPLCONFIGDIR=_w + "/mpl", MPLBACKEND="Agg",
                  OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", LANG="C.UTF-8", LC_ALL="C.UTF-8")
os.makedirs(_w + "/mpl"); os.makedirs(_w + "/numba", exist_ok=True); os.makedirs(_w + "/cwd")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    shutil.rmtree(_w)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
os.chdir(_w + "/cwd")
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    t0 = time.time()
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    # the code under test is always compiled from its source text, never from a cached .pyc
    from importlib.machinery import SourceFileLoader
    orig = SourceFileLoader.get_code

    def get_code(self, name):
        if os.path.abspath(self.path).startswith((os.path.abspath(REPO) + "/", VERIF + "/")):
            return self.source_to_code(self.get_data(self.path), self.path)
        return orig(self, name)
    SourceFileLoader.get_code = get_code
    from pyvc import driver
    import cProfile, pstats
    if os.environ.get("PYVC_PROF"):
        pr = cProfile.Profile(); pr.enable()
    rc = driver.main(A, VERIF, REPO, t0)
    if os.environ.get("PYVC_PROF"):
        pr.disable(); pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
    box.append(rc)


box = []
th = threading.Thread(target=main)
th.start()
th.join()
sys.stdout.flush()
shutil.rmtree(_w, ignore_errors=True)
os._exit(box[0] if box else 2)
