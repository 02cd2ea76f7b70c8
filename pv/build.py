"""Builds the library (its on-disk caches) from the working tree of /repo."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('PV_REPO', '/repo'))
# where evidence and replays go, redirected in trials against copies
OUT = Path(os.environ.get('PV_OUT', VERIF))
WORK = OUT / '.build'
PYTHON = sys.executable


class BuildError(Exception):
    pass


def core_dir(root=None):
    return Path(root or REPO) / 'paradigm' / '_core'


def cache_paths(root=None):
    return sorted(path for path in (Path(root or REPO) / 'paradigm'
                                    ).rglob('_*.py') if is_cache(path))


def is_cache(path):
    """Generated files (the ones git is told to ignore)."""
    return (path.name.startswith('_') and not path.name.startswith('__')
            and path.suffix == '.py')


def source_paths(root=None):
    root = Path(root or REPO)
    return sorted(path for path in (root / 'paradigm').rglob('*')
                  if path.is_file() and '__pycache__' not in path.parts
                  and not is_cache(path)
                  and path.suffix not in ('.pyc',))


def _digest(paths, root):
    result = hashlib.sha256()
    for path in paths:
        result.update(str(path.relative_to(root)).encode())
        result.update(b'\0')
        result.update(path.read_bytes())
        result.update(b'\0')
    return result.hexdigest()


def sources_digest(root=None):
    root = Path(root or REPO)
    return _digest(source_paths(root), root)


def child_env(root=None, *, seed='0', pycache=None, **extra):
    env = {key: value for key, value in os.environ.items()
           if key not in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONHOME')}
    env.update(PYTHONPATH=os.pathsep.join([str(root or REPO), str(VERIF)]),
               PYTHONHASHSEED=str(seed),
               PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore')
    if pycache is not None:
        env['PYTHONPYCACHEPREFIX'] = str(pycache)
    env.update(extra)
    return env


def run_build(root, *, seed='0', pycache=None, timeout=600):
    completed = subprocess.run(
            [PYTHON, '-c', 'import paradigm.base'], cwd=str(root),
            env=child_env(root, seed=seed, pycache=pycache),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
    )
    if completed.returncode:
        raise BuildError(completed.stdout.decode(errors='replace')[-4000:])


def ensure():
    """
    (Re)generates caches of the library in place if they don't correspond
    to the working tree, returns directory to be used for bytecode.
    """
    WORK.mkdir(exist_ok=True, parents=True)
    with open(WORK / 'lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp_path = WORK / 'stamp.json'
        sources = sources_digest()
        pycache = WORK / ('pyc-' + sources[:16])
        try:
            stamp = json.loads(stamp_path.read_text())
        except (OSError, ValueError):
            stamp = None
        caches = cache_paths()
        if (stamp is None or stamp.get('sources') != sources
                or stamp.get('caches') != _digest(caches, REPO)
                or not pycache.exists()):
            for path in caches:
                path.unlink(missing_ok=True)
            for path in WORK.glob('pyc-*'):
                shutil.rmtree(path)
            pycache.mkdir()
            # "save" compiles the caches on its own
            run_build(REPO, pycache=pycache)
            caches = cache_paths()
            stamp_path.write_text(json.dumps({
                'sources': sources, 'caches': _digest(caches, REPO)
            }))
        return pycache


def copy_package(destination, *, with_caches=True):
    """Copies the library (for checks which damage or regenerate caches)."""
    destination = Path(destination)
    shutil.copytree(REPO / 'paradigm', destination / 'paradigm',
                    ignore=lambda directory, names: [
                        name for name in names
                        if (name == '__pycache__' or name.endswith('.pyc')
                            or not with_caches and is_cache(Path(name)))
                    ])
    return destination
