"""
Server which decides trees of stubs: makes the library read a tree
instead of the stubs it usually does along with the type checker reading it.

Runs as a separate process, requests and responses are JSON lines,
each request is processed in a fork.
"""
import compileall
import contextlib
import importlib
import json
import os
import re
import shutil
import signal
import sys
import sysconfig
import traceback
from pathlib import Path

import mypy
from mypy import build, errors, modulefinder, options
from mypy.state import state

from pv import build as library_build, trees

OUTPUT = os.fdopen(os.dup(1), 'w')
# what's needed for reading of any stub, the rest is up to the generator
CORE = ['abc', 'builtins', 'collections', 'collections.abc', 'contextlib',
        'dataclasses', 'enum', 'functools', 'os', 'sys', 'types', 'typing',
        'typing_extensions', '_typeshed']
# complaints which don't make meaning of declarations unclear
IGNORED = ('override', 'overload-overlap', 'var-annotated', 'assignment',
           'overload-cannot-match')
IGNORED_MESSAGES = (
    'overlap with incompatible return types', 'will never be matched',
    'used in protocol', 'Cannot use a covariant', 'Cannot use a contravariant',
    'is incompatible with supertype', 'incompatible with return type',
    'in base class', 'A function returning TypeVar should receive',
    'Unsupported left operand', 'unsafely overlapping',
    'of "__new__"', 'Free type variable',
)
LOCATION = re.compile(r'^(?P<path>[^:]+):(?P<line>\d+): (?P<kind>\w+): '
                      r'(?P<text>.*?)(?:  \[(?P<code>[\w-]+)\])?$')


class Invalid(Exception):
    """Tree is not something the type checker or Python agrees with."""


class Place:
    """Directory with everything what could be changed by trees."""

    def __init__(self, directory):
        self.directory = Path(directory)
        self.mypy = self.directory / 'mypy'
        self.typeshed = self.mypy / 'typeshed'
        self.stubs = self.typeshed / 'stdlib'
        self.runtime = self.directory / 'runtime'
        self.cache = self.directory / 'mypy_cache'
        self.root = self.directory / 'library'

    def analyze(self, names, typeshed_directory, *, cached):
        settings = options.Options()
        settings.python_version = sys.version_info[:2]
        settings.platform = sys.platform
        settings.incremental = cached
        settings.cache_dir = str(self.cache) if cached else '/dev/null'
        settings.hide_error_codes = False
        settings.preserve_asts = True
        settings.custom_typeshed_dir = str(typeshed_directory)
        settings.abs_custom_typeshed_dir = str(typeshed_directory)
        try:
            result = build.build(
                    [modulefinder.BuildSource(None, name, None)
                     for name in names], settings
            )
        except errors.CompileError as error:
            return None, error.messages
        state.strict_optional = True
        return result.files, result.errors

    def prepare(self):
        """Makes as small typeshed as possible."""
        original = Path(mypy.__file__).parent / 'typeshed'
        files, messages = self.analyze(CORE, original, cached=False)
        assert files is not None, messages
        self.stubs.mkdir(parents=True)
        self.runtime.mkdir()
        for path in sorted(Path(mypy.__file__).parent.iterdir()):
            if path.name != 'typeshed':
                (self.mypy / path.name).symlink_to(path)
        for file in files.values():
            path = Path(file.path).relative_to(original)
            target = self.typeshed / path
            target.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(file.path, target)
        for path in (original / 'stubs').iterdir():
            if path.name == 'mypy-extensions':
                shutil.copytree(path, self.typeshed / 'stubs' / path.name)
        versions = (original / 'stdlib' / 'VERSIONS').read_text()
        (self.stubs / 'VERSIONS').write_text(
                versions + ''.join(f'\n{name}: 3.0-'
                                   for name in trees.TOP_LEVEL) + '\n'
        )
        files, messages = self.analyze(CORE, self.typeshed, cached=True)
        assert files is not None, messages
        library_build.copy_package(self.root, with_caches=False)
        compileall.compile_dir(self.root, quiet=2)

    def clear(self):
        for path in self.root.rglob('_*.py*'):
            if library_build.is_cache(path.with_name(
                    path.name.partition('.')[0] + '.py'
            )):
                path.unlink()
        for directory in (self.stubs, self.runtime,
                          self.cache / '{}.{}'.format(*sys.version_info)):
            for name in trees.TOP_LEVEL:
                for path in directory.glob(f'{name}*'):
                    if path.is_dir():
                        shutil.rmtree(path)
                    else:
                        path.unlink()

    def write(self, tree):
        """Returns items' paths by lines of files."""
        self.clear()
        result = {}
        for module_index, module in enumerate(tree):
            parts = module['name'].split('.')
            for directory, key, suffix in [(self.stubs, 's', '.pyi'),
                                           (self.runtime, 'r', '.py')]:
                path = (directory.joinpath(*parts, '__init__' + suffix)
                        if module['package']
                        else directory.joinpath(*parts).with_suffix(suffix))
                path.parent.mkdir(parents=True, exist_ok=True)
                lines, origins = trees.render(module['items'], key)
                path.write_text('\n'.join(lines) + '\n')
                result[str(path)] = [(module_index, *origin)
                                     for origin in origins]
        return result


def complaints(messages, origins):
    """Returns paths of items there is something wrong with."""
    result = []
    for message in messages:
        match = LOCATION.match(message)
        if match is None:
            if origins is None:
                continue
            raise Invalid(message)
        if (match['kind'] != 'error' or match['code'] in IGNORED
                or any(text in match['text'] for text in IGNORED_MESSAGES)):
            continue
        path = os.path.abspath(match['path'])
        if path not in origins:
            raise Invalid(message)
        line = min(int(match['line']), len(origins[path]))
        if not origins[path]:
            raise Invalid(message)
        result.append((origins[path][line - 1], message))
    return result


def check_names(tree):
    names = [module['name'] for module in tree]
    packages = {module['name'] for module in tree if module['package']}
    if not names or len(set(names)) != len(names) or any(
            '.' in name and name.rpartition('.')[0] not in packages
            for name in names
    ):
        raise Invalid('modules without packages')


def read(place, tree):
    """Returns files of the tree as they are seen by the type checker."""
    check_names(tree)
    origins = place.write(tree)
    files, messages = place.analyze([module['name'] for module in tree],
                                    place.typeshed, cached=True)
    bad = complaints(messages, origins)
    bad += [(path, 'alias of nothing') for path in trees.dangling(tree)]
    if files is None and not bad:
        raise Invalid(messages)
    return files, bad, origins


def load(tree, origins):
    """Imports modules of the tree, returns them & what fails."""
    importlib.invalidate_caches()
    result = {}
    for module in tree:
        try:
            result[module['name']] = importlib.import_module(module['name'])
        except Exception as error:
            for frame in reversed(traceback.extract_tb(error.__traceback__)):
                if frame.filename in origins:
                    lines = origins[frame.filename]
                    return None, [(lines[min(frame.lineno, len(lines)) - 1],
                                   repr(error))]
            if (isinstance(error, SyntaxError) and error.filename in origins
                    and origins[error.filename]):
                lines = origins[error.filename]
                return None, [(lines[min(error.lineno, len(lines)) - 1],
                               repr(error))]
            raise Invalid(repr(error))
    return result, []


def unload():
    for name in list(sys.modules):
        if name.partition('.')[0] in trees.TOP_LEVEL:
            del sys.modules[name]


def repair(place, tree, *, attempts=12):
    """Removes everything questionable from the tree."""
    for _ in range(attempts):
        check_names(tree)
        origins = place.write(tree)
        modules, bad = load(tree, origins)
        unload()
        if not bad:
            files, bad, _ = read(place, tree)
        if not bad:
            return tree
        for path in sorted({path for path, _ in bad}, reverse=True):
            tree = trees.remove(tree, path)
    raise Invalid('too much is wrong')


@contextlib.contextmanager
def redirected(place):
    """Makes the library find the tree instead of the actual sources."""
    paths = {'stdlib': str(place.runtime), 'platstdlib': str(place.runtime)}
    original = sysconfig.get_path
    mypy.__file__ = str(place.mypy / '__init__.py')
    mypy.__path__ = [str(place.mypy)]
    mypy.__spec__.origin = mypy.__file__
    mypy.__spec__.submodule_search_locations = mypy.__path__
    sysconfig.get_path = lambda name, *args, **kwargs: (
        paths[name] if name in paths else original(name, *args, **kwargs)
    )
    try:
        yield
    finally:
        sysconfig.get_path = original


def decide(place, tree):
    """Returns problems & numbers of what was compared."""
    files, bad, origins = read(place, tree)
    if bad:
        raise Invalid(bad)
    sys.path[:0] = [str(place.root)]
    return compare(place, tree, files, origins)


def compare(place, tree, files, origins):
    # modules are not supposed to be imported by then
    assert not any(name.partition('.')[0] in trees.TOP_LEVEL
                   for name in sys.modules)
    try:
        with redirected(place):
            base = importlib.import_module('paradigm.base')
    except Exception as error:
        return [('import', ''.join(
                traceback.format_exception(error)
        )[-3000:])], {'import': 1}
    assert base.__file__.startswith(str(place.root)), base.__file__
    from pv import declared, stdlib, typeshed
    from pv.checks import c13, c14, c15
    modules, bad = load(tree, origins)
    if bad:
        raise Invalid(bad)
    names = {module['name'] for module in tree}
    own_files = {name: file for name, file in files.items() if name in names}
    typeshed.files = lambda: own_files
    stdlib.modules = lambda: modules
    problems = []
    counts = {'functions': 0, 'classes': 0, 'overloads': 0, 'skipped': 0}
    for group in declared.groups()[0]:
        members = group.relevant()
        if any(not member_is_complete(member) for member in members):
            counts['skipped'] += 1
            continue
        if declared.own_path(group.value)[0] not in names:
            counts['skipped'] += 1
            continue
        counts['functions'] += 1
        counts['overloads'] += any(len(member.declarations()) > 1
                                   for member in members)
        problems += guarded(
                declared.decide, group.value, group.path,
                [(member.full_path,
                  [lambda plain, declaration=declaration: (
                          c13.mismatch(plain, declaration, group.is_bound)
                          or c14.mismatch(plain, declaration, group.is_bound)
                  ) for declaration in member.declarations()])
                 for member in members],
                inspected=group.is_undeclared, path=group.path
        )
    for group in declared.classes()[0]:
        members = group.relevant()
        constructors = [declared.constructor(member.info)
                        for member in members]
        if group.value.__module__ not in names or any(
                owner is None or owner.module_name not in names
                for _, owner, _ in constructors
        ):
            counts['skipped'] += 1
            continue
        counts['classes'] += 1
        problems += guarded(declared.decide, group.value, group.path,
                            list(map(c15.checks_of, members)),
                            path=group.path)
    return problems, counts


def guarded(function, *args, path, **kwargs):
    try:
        return function(*args, **kwargs)
    except Exception as error:
        return [(path, ''.join(traceback.format_exception(error))[-2500:])]


def member_is_complete(member):
    """Declarations taken from the cache of type checker are incomplete."""
    return all(hasattr(declaration.function, 'arguments')
               for declaration in member.declarations())


def answer(place, request):
    try:
        tree = request['tree']
        if request.get('repair'):
            return {'tree': repair(place, tree)}
        problems, counts = decide(place, tree)
        return {'problems': problems, 'counts': counts}
    except Invalid as error:
        return {'invalid': str(error)[:500]}


def serve(directory):
    place = Place(directory)
    place.prepare()
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(place.runtime))
    print(json.dumps({'ready': True}), file=OUTPUT, flush=True)
    for line in sys.stdin:
        request = json.loads(line)
        print(json.dumps(perform(place, request)), file=OUTPUT, flush=True)


def perform(place, request):
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(reader)
            null = os.open(os.devnull, os.O_RDWR)
            for descriptor in (0, 1):
                os.dup2(null, descriptor)
            signal.alarm(120)
            try:
                response = answer(place, request)
            except BaseException as error:
                response = {'error': ''.join(
                        traceback.format_exception(error)
                )[-4000:]}
            with os.fdopen(writer, 'w') as file:
                json.dump(response, file)
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader) as file:
        content = file.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(content)
    except ValueError:
        return {'error': 'died'}


if __name__ == '__main__':
    serve(sys.argv[1])
