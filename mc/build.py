"""Builds an importable scratch copy of /repo's working tree.

The package is copied (without any compiled product) to a scratch directory and every
Cython module in it is compiled there with the flags of the repository's own build.
Nothing is written in /repo, and the copy is removed when the check ends.
"""
import atexit
import fcntl
import glob
import importlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
DIRECTIVES = ["-X", "language_level=2", "-X", "legacy_implicit_noexcept=True"]
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
# rtm_fast.pyx imports a package path that no longer exists; nothing imports it
SKIP = {"sidetopics/model/rtm_fast.pyx"}


def _compile(root, pyx, flags=()):
    import numpy as np
    name = pyx[:-4].replace("/", ".")
    base = os.path.join(root, pyx[:-4])
    c, so = base + ".c", base + SUFFIX
    for cmd in (
        [sys.executable, "-m", "cython", *DIRECTIVES, "--module-name", name, pyx, "-o", c],
        ["gcc", "-O2", "-fPIC", "-shared", "-fno-strict-aliasing", "-fwrapv", "-fopenmp", "-w", *flags,
         "-I" + sysconfig.get_path("include"), "-I" + np.get_include(),
         "-I" + os.path.dirname(os.path.join(root, pyx)), c, "-o", so,
         "-lgsl", "-lgslcblas", "-lgomp", "-lm"],
    ):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=root)
        if p.returncode:
            return pyx, p.stdout
    os.remove(c)
    return pyx, None


_scratch = None


def scratch():
    """The scratch directory of this run (also for files the checks write)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mc-sidetopics-")
        owner = os.getpid()
        path = _scratch

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


RAND_C = """
#include <stdint.h>
static const int *script; static long script_len, script_pos, calls, seeds; static uint64_t state = 1;
int mc_rand(void) {
    calls++;
    if (script_pos < script_len) return script[script_pos++];
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)(state >> 33);
}
void mc_srand(unsigned s) { seeds++; state = s * 2654435761ULL + 12345; }
void mc_script(const int *v, long n) { script = v; script_len = n; script_pos = 0; calls = 0; seeds = 0; }
long mc_calls(void) { return calls; }
long mc_seeds(void) { return seeds; }
"""
random_control = None


def _random_control(root):
    """A C random number generator that follows a script: it stands in for rand() in the modules compiled for it."""
    global random_control
    import ctypes
    src, so = os.path.join(root, "mc_rand.c"), os.path.join(root, "libmc_rand.so")
    with open(src, "w") as f:
        f.write(RAND_C)
    subprocess.check_call(["gcc", "-O2", "-fPIC", "-shared", src, "-o", so])
    random_control = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
    random_control.mc_calls.restype = ctypes.c_long
    random_control.mc_script.argtypes = [ctypes.c_void_p, ctypes.c_long]


class _OnDemand:
    """Compiles a native module of the scratch copy when it is first imported (if `prepare` has not)."""

    def __init__(self, root, flags):
        self.root, self.flags = root, flags

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("sidetopics."):
            return None
        base = fullname.replace(".", "/")
        src, so = os.path.join(self.root, base + ".pyx"), os.path.join(self.root, base + SUFFIX)
        if os.path.exists(src) and not os.path.exists(so) and not os.path.exists(src[:-1]):
            with open(os.path.join(scratch(), "compile.lock"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                if not os.path.exists(so):
                    _, err = _compile(self.root, base + ".pyx", self.flags(base + ".pyx"))
                    if err:
                        print("BUILD FAILED %s\n%s" % (base, err))
            importlib.invalidate_caches()
        return None


def prepare(native=None, scripted=()):
    """Copies and compiles the package; puts the copy first on sys.path.

    native   -- names of the .pyx modules to compile at once (None: all of them; others when they are imported).
    scripted -- names of those whose C rand() is to be under the control of the check.
    """
    root = os.path.join(scratch(), "tree")
    ignore = shutil.ignore_patterns("*.so", "*.so.*", "*.c", "__pycache__", "*.pyc", "*.ipynb", ".ipynb_checkpoints")
    shutil.copytree(os.path.join(REPO, "sidetopics"), os.path.join(root, "sidetopics"), ignore=ignore)
    if os.path.isdir(os.path.join(REPO, "notebooks")):         # report templates are looked for there
        shutil.copytree(os.path.join(REPO, "notebooks"), os.path.join(root, "notebooks"))
    pyxs = [os.path.relpath(p, root) for p in
            glob.glob(os.path.join(root, "sidetopics/**/*.pyx"), recursive=True)]
    pyxs = sorted(set(pyxs) - SKIP)
    if native is not None:
        pyxs = [p for p in pyxs if os.path.basename(p)[:-4] in native]
    flags = lambda p: ("-Drand=mc_rand", "-Dsrand=mc_srand") if os.path.basename(p)[:-4] in scripted else ()
    with ThreadPoolExecutor(8) as ex:
        bad = [(p, m) for p, m in ex.map(lambda p: _compile(root, p, flags(p)), pyxs) if m]
    if bad:
        for p, m in bad:
            print("BUILD FAILED %s\n%s" % (p, m))
        raise SystemExit(2)
    if scripted:
        _random_control(root)
    sys.meta_path.insert(0, _OnDemand(root, flags))
    sys.path.insert(0, root)
    import sidetopics
    assert os.path.abspath(sidetopics.__file__).startswith(root), sidetopics.__file__
    return root
