import os, sys
sys.dont_write_bytecode = True
_R = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != _R:
    sys.path.insert(0, _R)
if os.path.realpath(_R) != "/repo":       # development only: an editable install of /repo must not shadow a copy
    sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuild" not in type(f).__name__]
