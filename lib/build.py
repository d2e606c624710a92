"""Build the current working tree of /repo in a scratch directory.

The tree (tracked and untracked source files, never .git) is copied to a scratch
directory; extension modules are taken over only when the content hash that
/opt/vp/build.sh recorded for their last build equals the hash of the source now in
/repo; every other extension is compiled in the scratch copy.  Nothing is written in
/repo or in /opt/vp.
"""
import hashlib
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _common(root):
    out = subprocess.run(
        "cat setup.py setup.cfg pyproject.toml $(find . -path ./build -prune -o -path ./.git -prune -o "
        "\\( -name '*.h' -o -name '*.hpp' -o -name '*.hh' \\) -type f -print | LC_ALL=C sort) 2>/dev/null | sha256sum",
        shell=True, cwd=root, stdout=subprocess.PIPE, executable="/bin/bash")
    return out.stdout.decode().strip()


def _ignore(d, names):
    out = []
    for n in names:
        if n in (".git", "build", "__pycache__", ".pytest_cache") or n.endswith((".so", ".pyc")):
            out.append(n)
    return out


def scratch_base():
    b = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return b


def runtime_env(scratch):
    e = dict(os.environ)
    e.update({
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONPATH": scratch,
        "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "agg", "LC_ALL": "C.UTF-8",
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    })
    return e


def build(repo=REPO):
    """Return the path of a scratch copy of the repository with its extensions built."""
    top = tempfile.mkdtemp(prefix="vf_build_", dir=scratch_base())
    dst = os.path.join(top, "src")
    shutil.copytree(repo, dst, symlinks=True, ignore=_ignore)
    ns = runpy.run_path(os.path.join(dst, "setup.py"), run_name="vf")
    stamps = os.path.join(repo, "build", "vp-stamps")

    def read(p):
        try:
            with open(p) as f:
                return f.read().strip()
        except OSError:
            return None

    reuse_ok = read(os.path.join(stamps, "common")) == _common(repo)
    missing = []
    for e in ns["ext_modules"]:
        h = hashlib.sha256()
        for s in e.sources:
            p = os.path.join(dst, s)
            h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
        sos = [f for f in os.listdir(repo) if f.startswith(e.name + ".") and f.endswith(".so")]
        if reuse_ok and len(sos) == 1 and read(os.path.join(stamps, e.name)) == h.hexdigest():
            shutil.copy2(os.path.join(repo, sos[0]), os.path.join(dst, sos[0]))
        else:
            missing.append(e.name)
    if missing:
        env = runtime_env(dst)
        env.update({"CCACHE_DIR": "/opt/vp/ccache", "CCACHE_READONLY": "1", "CCACHE_NOHASHDIR": "1",
                    "CCACHE_TEMPDIR": os.path.join(top, "cctmp"), "HOME": "/root"})
        if shutil.which("ccache"):
            env.update({"CC": "ccache gcc", "CXX": "ccache g++"})
        # restrict setup.py's list of extensions to the missing ones, without touching it
        drv = os.path.join(top, "drv.py")
        with open(drv, "w") as f:
            f.write(
                "import runpy, sys\n"
                "import setuptools\n"
                "keep=set(%r)\n"
                "orig=setuptools.setup\n"
                "def setup(**k):\n"
                "    k['ext_modules']=[e for e in k.get('ext_modules',[]) if e.name in keep]\n"
                "    return orig(**k)\n"
                "setuptools.setup=setup\n"
                "sys.argv=['setup.py','-q','build_ext','--inplace','-j','6']\n"
                "runpy.run_path('setup.py', run_name='__main__')\n" % (missing,))
        r = subprocess.run([PY, drv], cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            shutil.rmtree(top, ignore_errors=True)
            raise BuildError("extension build failed")
    return top, dst, missing


if __name__ == "__main__":
    print(build())
