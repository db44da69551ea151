"""Make an importable copy of /repo's current glum, rebuilding the Cython
extensions unless the ones in /repo provably come from the current sources."""
import hashlib
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
VERIF = Path(__file__).resolve().parent.parent


class BuildError(Exception):
    pass


def _shared_hash(repo):
    """The hash of everything the extensions share, as /opt/vp/build.sh stamps it."""
    script = r"""
    { find src -type f \( -name '*.pxd' -o -name '*.pxi' -o -name '*.h' \
             -o -name '*.hpp' -o -name '*tmpl.cpp' \) -print0 | sort -z | xargs -0r sha256sum
           sha256sum setup.py setup.cfg pyproject.toml
           "$PY" -c 'import sys, numpy, Cython; print(sys.version, numpy.__version__, Cython.__version__)'
         } 2>&1 | sha256sum
    """
    env = dict(os.environ, PY=PY)
    env.pop("PYTHONPATH", None)
    return subprocess.run(
        ["bash", "-c", script], cwd=repo, env=env, capture_output=True, text=True
    ).stdout.strip()


def _fresh_so(repo):
    """Extension files of /repo if their build stamps match the current sources."""
    shared = None
    found = []
    for pyx in sorted((repo / "src/glum").glob("*.pyx")):
        stamp = repo / "build/vp-stamps" / f"src.glum.{pyx.stem}"
        sos = list(pyx.parent.glob(f"{pyx.stem}.cpython-312-*.so"))
        if len(sos) != 1 or not stamp.exists():
            return None
        if shared is None:
            shared = _shared_hash(repo)
        digest = hashlib.sha256(pyx.read_bytes()).hexdigest()
        want = f"{digest}  src/glum/{pyx.name}\n{shared}\n"
        if stamp.read_text() != want:
            return None
        found += sos
    return found


def _compiled_so(repo):
    """Build the extensions in a scratch copy, cached by content in /verif/.build."""
    h = hashlib.sha256()
    for f in [repo / "setup.py", repo / "pyproject.toml"] + sorted(
        p for p in (repo / "src/glum").iterdir() if p.suffix in (".pyx", ".pxd", ".h", ".hpp")
    ):
        h.update(f.name.encode() + b"\0" + f.read_bytes() + b"\0")
    cache = VERIF / ".build" / h.hexdigest()[:24]
    if not (cache / "ok").exists():
        with tempfile.TemporaryDirectory(prefix="glumbuild") as tmp:
            tmp = Path(tmp)
            for name in ["setup.py", "setup.cfg", "pyproject.toml", "README.md", "LICENSE"]:
                if (repo / name).exists():
                    shutil.copy(repo / name, tmp / name)
            shutil.copytree(
                repo / "src",
                tmp / "src",
                ignore=shutil.ignore_patterns("*.so", "*.cpp", "__pycache__", "*.egg-info"),
            )
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="3.4.1")
            env.pop("PYTHONPATH", None)
            r = subprocess.run(
                [PY, "setup.py", "build_ext", "--inplace", "-j", "4"],
                cwd=tmp, env=env, capture_output=True, text=True,
            )
            if r.returncode:
                raise BuildError(r.stdout[-2000:] + r.stderr[-4000:])
            cache.mkdir(parents=True, exist_ok=True)
            for so in (tmp / "src/glum").glob("*.so"):
                part = cache / f"{so.name}.{os.getpid()}"
                shutil.copy(so, part)
                os.replace(part, cache / so.name)
            (cache / "ok").touch()
    return list(cache.glob("*.so"))


def prepare(dest: Path):
    """Put a complete glum package of the current tree in dest/glum."""
    sos = _fresh_so(REPO) or _compiled_so(REPO)
    shutil.copytree(
        REPO / "src/glum",
        dest / "glum",
        ignore=shutil.ignore_patterns("*.so", "*.cpp", "__pycache__"),
    )
    for so in sos:
        shutil.copy(so, dest / "glum" / so.name)
    return dest


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as d:
        prepare(Path(d))
        if os.environ.get("FORCE_COMPILE"):
            _compiled_so(REPO)
    print("build ok")
