"""Makes the code of /repo's current working tree importable.

The Python sources are imported from /repo itself. The Cython extensions that the normal build leaves in
place are used only if they were built from exactly the current .pyx/.pxd sources (the build's own stamp);
otherwise the current sources are copied to a scratch directory, built there and imported from there.
"""
import os, sys, subprocess, shutil, glob

REPO = os.environ.get("SWITSS_REPO", "/repo")

def _fingerprint(repo):
    cmd = r"{ find switss -name '*.pyx' -o -name '*.pxd' | LC_ALL=C sort | xargs -d '\n' sha256sum; sha256sum setup.py; }"
    return subprocess.run(["bash", "-c", cmd], cwd=repo, capture_output=True, text=True).stdout.strip()

COUNTFLAGS = "-O1 -g0 -Dmalloc=mc_malloc -Dcalloc=mc_calloc -Drealloc=mc_realloc -Dfree=mc_free"
ASANFLAGS = COUNTFLAGS + " -fsanitize=address -fno-omit-frame-pointer"

def prepare(scratch, flags=None):
    """returns the directory to put on sys.path; flags: build native code with these"""
    repo = REPO
    stamp = os.path.join(repo, "build", "ext.sha256")
    fp = _fingerprint(repo)
    fresh = os.path.exists(stamp) and open(stamp).read().strip() == fp and all(
        glob.glob(os.path.join(repo, "switss", "utils", m + ".cpython-*.so")) for m in ("graph", "stack", "treaps"))
    if fresh and not flags:
        return repo, "in-place extensions match the sources"
    dst = os.path.join(scratch, "src")
    os.makedirs(dst)
    shutil.copytree(os.path.join(repo, "switss"), os.path.join(dst, "switss"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__"))
    shutil.copytree(os.path.join(repo, "bin"), os.path.join(dst, "bin"))
    for f in ("setup.py",):
        shutil.copy(os.path.join(repo, f), dst)
    env = dict(os.environ, CYTHON_FORCE_REGEN="1", CFLAGS=flags or "-O1 -g0")
    r = subprocess.run([sys.executable, "-W", "ignore", "setup.py", "build_ext", "--inplace", "--force", "-j", "4"],
                       cwd=dst, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
        raise SystemExit("extensions do not build")
    shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
    return dst, "extensions rebuilt from the current sources in a scratch copy"

RANDSHIM = r'''
#include <stddef.h>
#include <stdlib.h>
/* blocks that native code of switss has allocated and not released (C30 compiles it to call these functions) */
static long live = 0, total = 0;
long mc_live(void) { return live; }
long mc_total(void) { return total; }
void *mc_malloc(size_t n) { void *p = malloc(n); if (p) { live++; total++; } return p; }
void *mc_calloc(size_t m, size_t n) { void *p = calloc(m, n); if (p) { live++; total++; } return p; }
void *mc_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p && !q) { live++; total++; } if (!p && q && !n) live--; return p; }
void mc_free(void *p) { if (p) live--; free(p); }
static int *seq = NULL; static long n = 0, pos = 0; static long calls = 0;
/* the harness decides every answer of rand(); without a script the answers are a fixed counter */
void mc_rand_script(int *s, long len) { seq = s; n = len; pos = 0; calls = 0; }
long mc_rand_calls(void) { return calls; }
int rand(void) { calls++; if (n == 0) return (int)(calls & 0x7fffffff); int r = seq[pos]; pos = (pos + 1) % n; return r; }
void srand(unsigned int s) { (void)s; }
'''

def asan_env(scratch, shim):
    """environment in which code with the address sanitizer can be loaded, or None"""
    lib = lambda cc, n: subprocess.run([cc, "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    env = dict(LD_PRELOAD=" ".join([lib("gcc", "libasan.so"), lib("g++", "libstdc++.so.6"), shim]),
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:malloc_context_size=3:quarantine_size_mb=32:exitcode=77:log_path=" + os.path.join(scratch, "asan"))
    for _ in range(3):
        if subprocess.run([sys.executable, "-c", "import ctypes, sys; ctypes.CDLL(None).__asan_report_error"], env=dict(os.environ, **env), capture_output=True).returncode == 0: return env
    return None

def randshim(scratch):
    c, so = os.path.join(scratch, "randshim.c"), os.path.join(scratch, "randshim.so")
    open(c, "w").write(RANDSHIM)
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, c], check=True)
    return so
