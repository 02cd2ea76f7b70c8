"""Scratch copies of the library whose caches are free to be harmed."""
import contextlib
import functools
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import uuid
from pathlib import Path

from . import build

TIMEOUT = 240


@functools.lru_cache(maxsize=None)
def shuffling_library():
    """Library which makes order of directories listings random."""
    build.WORK.mkdir(exist_ok=True, parents=True)
    result = build.WORK / 'shuffle.so'
    temporary = build.WORK / f'shuffle-{uuid.uuid4().hex}.so'
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w',
                    str(Path(__file__).with_name('shuffle.c')),
                    '-o', str(temporary), '-ldl'],
                   check=True)
    os.replace(temporary, result)
    return str(result)


@contextlib.contextmanager
def scratch():
    build.WORK.mkdir(exist_ok=True, parents=True)
    path = Path(tempfile.mkdtemp(prefix='scratch-', dir=build.WORK))
    path.chmod(0o755)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def caches(root):
    """Contents of the caches by their (relative) paths."""
    return {str(path.relative_to(root)): path.read_bytes()
            for path in build.cache_paths(root) if path.is_file()}


def digests(root):
    return {path: hashlib.sha256(content).hexdigest()
            for path, content in caches(root).items()}


class Process:
    """The library of given root imported in new interpreter."""

    def __init__(self, root, config, *, limit=None, user=None):
        env = {key: value for key, value in os.environ.items()
               if not key.startswith(('PYTHON', 'LC_', 'LANG', 'PV_'))}
        path = [str(root), str(build.VERIF)]
        if config.get('order') is not None:
            env['PV_ORDER'] = str(config['order'])
            env['LD_PRELOAD'] = shuffling_library()
        env.update(PYTHONPATH=os.pathsep.join(path),
                   PYTHONWARNINGS='ignore')
        if config.get('hash') is not None:
            env['PYTHONHASHSEED'] = str(config['hash'])
        env.update(config.get('env', {}))

        def prepare():
            if limit is not None:
                import resource
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if config.get('umask') is not None:
                os.umask(config['umask'])
            if user is not None:
                os.setgroups([])
                os.setgid(user)
                os.setuid(user)

        self.process = subprocess.Popen(
                [sys.executable, *config.get('flags', []), '-m', 'pv.child'],
                cwd=config.get('cwd') or '/', env=env,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, start_new_session=True,
                preexec_fn=prepare
        )
        self.process.stdin.write(
                json.dumps({**config, 'root': str(root)}).encode()
        )
        self.process.stdin.close()
        self.process.stdin = None

    def result(self, timeout=TIMEOUT):
        """Returns answers and description of the failure if any."""
        try:
            output, errors = self.process.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return None, 'has not finished in time'
        try:
            return json.loads(output), None
        except ValueError:
            return None, (f'exit code {self.process.returncode}\n'
                          + errors.decode(errors='replace')[-1500:])

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.process.wait()


def is_accessible(root, user):
    """Tells if everything is readable (but not writable) for the user."""
    def prepare():
        os.setgroups([])
        os.setgid(user)
        os.setuid(user)

    try:
        return not subprocess.run(
                [sys.executable, '-c',
                 'import os, sys\n'
                 'sys.exit(not all(os.access(path, os.R_OK | os.X_OK) '
                 'and not os.access(path, os.W_OK) '
                 'for path in sys.argv[1:]))',
                 str(root), str(Path(root) / 'paradigm'),
                 str(build.VERIF / 'pv')],
                cwd='/', preexec_fn=prepare, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL
        ).returncode
    except (OSError, subprocess.SubprocessError):
        return False


def run(root, config, **kwargs):
    return Process(root, config, **kwargs).result()


def difference(expected, actual, queries=None):
    if len(actual) < 0.9 * len(expected if queries is None else queries):
        return f'there are only {len(actual)} results'
    for path in (expected if queries is None else queries):
        if path not in actual:
            # not all of the members are always defined
            continue
        if actual[path] != expected[path]:
            return (f'{path}\nexpected: {expected[path][:700]}\n'
                    f'reported: {actual[path][:700]}')
    return None


class Reference:
    """The library with just built caches."""

    def __init__(self, directory):
        self.root = build.copy_package(Path(directory) / 'reference',
                                       with_caches=False)
        result, self.error = run(self.root, {'queries': [], 'hash': 0})
        if self.error is None:
            self.caches = caches(self.root)
            self.expected, self.error = run(self.root, {'sweep': True,
                                                        'hash': 0})

    def copy(self, directory, *, with_caches):
        destination = Path(directory)
        shutil.copytree(self.root / 'paradigm', destination / 'paradigm',
                        ignore=lambda _, names: [
                            name for name in names
                            if not with_caches and (
                                    name == '__pycache__'
                                    or build.is_cache(Path(name))
                            )
                        ])
        return destination
