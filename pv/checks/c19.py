"""The library with absent, damaged, stale or unwritable caches."""
import concurrent.futures
import itertools
import os
import random
import re
import shutil
import time

from pv import packages, shrinking
from pv.runner import Skip

RULE = ('Caches of a scratch copy of the library are harmed: removed, '
        'truncated, emptied, filled with zeros, interspersed with garbage '
        'or bytes of no encoding, given other versions (with contents kept '
        'or emptied), deprived of fields, replaced with directories and '
        'dangling links, deprived of valid bytecode, written by processes '
        'killed at random moments, running out of allowed size of a file, '
        'competing with each other or having no permission to write. '
        'Queries of random standard library callables made after that '
        'should give the same as with intact caches, contents of writable '
        'caches should be restored by the first import which is not '
        'prevented from that and then should be good for other ones. '
        'Non-trivial: some cache can not be loaded as it was saved; distinct '
        'by the harm.')
ASSUMPTIONS = ['changes of caches which leave them loadable and claiming '
               'the same version are undetectable and out of scope']
GARBAGE = [b')(', b'\n= \n', b"'", b'\x00', b'\xff\xfe', b'\n  1\n', b'{[(',
           b'\n\x80\n', b'"""', b'\\', b'\nraise ValueError\n', b'\n1 / 0\n',
           b'\nimport nonexistent_module_\n']
VERSIONS = [b"'4.2.0'", b"'4.3.0.dev0'", b"'0.0.0'", b'None', b"''", b"'4'",
            b'43', b"('4', '3', '0')", b"b'4.3.0'", b"'5.0.0'", b"'4.3.00'"]
FIELD = re.compile(rb'^([A-Za-z_]\w*) = ', re.MULTILINE)
VERSION = re.compile(rb'^(\w*version\w*) = .*$', re.MULTILINE)
state = {}


def reference():
    if 'reference' not in state:
        state['scratch'] = packages.scratch()
        state['directory'] = state['scratch'].__enter__()
        state['reference'] = packages.Reference(state['directory'])
        state['counter'] = itertools.count()
        state['namespaces'] = {}
    return state['reference']


def close():
    if 'scratch' in state:
        state.pop('scratch').__exit__(None, None, None)
        state.clear()


# harming
def fields(content):
    """Top-level statements by names."""
    starts = [(match.group(1), match.start())
              for match in FIELD.finditer(content)]
    return {name: content[start:stop]
            for (name, start), stop in zip(starts,
                                           [start for _, start in starts[1:]]
                                           + [len(content)])}


def position(content, place):
    """Place is either a share of the length or negative offset from the end"""
    return (max(0, len(content) + place) if place < 0
            else int(len(content) * place))


def harmed(content, kind, *arguments):
    if kind == 'truncated':
        place, = arguments
        return content[:position(content, place)]
    if kind == 'zeros':
        place, size = arguments
        index = position(content, place)
        return (content[:index] + bytes(len(content[index:index + size]))
                + content[index + size:])
    if kind == 'garbage':
        place, index = arguments
        place = position(content, place)
        return content[:place] + GARBAGE[index] + content[place:]
    if kind == 'version':
        index, is_emptied = arguments
        if not VERSION.search(content):
            raise Skip
        if is_emptied:
            content = b''.join(
                    (statement if VERSION.match(statement)
                     else name + b' = {}\n')
                    for name, statement in fields(content).items()
            )
        return VERSION.sub(rb'\1 = ' + VERSIONS[index], content)
    if kind == 'lacking':
        index, = arguments
        statements = list(fields(content).values())
        del statements[index % len(statements)]
        return b''.join(statements)
    if kind == 'blank':
        return b''
    raise ValueError(kind)


def harm(root, path, kind, *arguments):
    """Returns whether the cache can be loaded as it was saved."""
    path = root / path
    content = path.read_bytes()
    if kind == 'intact':
        return True
    if kind == 'absent':
        path.unlink()
        for bytecode in bytecodes(path):
            if arguments:
                bytecode.unlink()
    elif kind == 'directory':
        path.unlink()
        path.mkdir()
    elif kind == 'dangling':
        path.unlink()
        path.symlink_to(root / 'nonexistent' / path.name)
    elif kind == 'bytecode':
        place, = arguments
        for bytecode in bytecodes(path):
            content = bytecode.read_bytes()
            bytecode.write_bytes(content[:position(content, place)])
    elif kind == 'foreign bytecode':
        for bytecode in bytecodes(path):
            bytecode.write_bytes(b'\x00\x00\r\n' + bytecode.read_bytes()[4:])
    else:
        new_content = harmed(content, kind, *arguments)
        path.write_bytes(new_content)
        return is_intact(path.name, content, new_content)
    return False


def is_intact(name, content, new_content):
    try:
        compiled = compile(new_content, name, 'exec')
    except (SyntaxError, ValueError):
        return False
    intact, new = {}, {}
    try:
        exec(compiled, new)
    except Exception:
        return False
    if content not in state['namespaces']:
        exec(content, intact)
        state['namespaces'][content] = intact
    intact = state['namespaces'][content]
    names = {name for name in intact if not name.startswith('__')}
    if not names <= new.keys():
        return False
    if any(VERSION.match(name.encode() + b' = ') and new[name] != intact[name]
           for name in names):
        return False
    if any(new[name] != intact[name] for name in names):
        # silent corruption
        raise Skip
    return True


def bytecodes(path):
    return sorted((path.parent / '__pycache__').glob(path.stem + '.*.pyc'))


# deciding
def decide_harm(case):
    etalon = reference()
    if etalon.error is not None:
        return f'failed to import: {etalon.error}'
    root = etalon.copy(state['directory'] / f'copy-{next(state["counter"])}',
                       with_caches=True)
    try:
        return decide(etalon, root, case)
    finally:
        if case.get('circumstances', [None])[0] == 'forbidden':
            allow(root)
        shutil.rmtree(root, ignore_errors=True)


def decide(etalon, root, case):
    harms = [harm(root, path, *case['harms'][index % len(case['harms'])])
             for index, path in enumerate(sorted(etalon.caches))]
    if all(harms) and not case.get('circumstances'):
        raise Skip
    config = {'queries': case['queries']}
    name, *arguments = case.get('circumstances') or ['usual']
    if name == 'limited':
        limit, = arguments
        problem = problem_of(etalon, config, packages.run(root, config,
                                                          limit=limit))
        if problem is not None:
            return f'with limited size of files: {problem}'
    elif name == 'killed':
        seconds, = arguments
        process = packages.Process(root, config)
        time.sleep(seconds)
        process.kill()
        process.process.communicate()
    elif name == 'competing':
        processes = []
        for delay in arguments:
            time.sleep(delay)
            processes.append(packages.Process(root, config))
        for problem in [problem_of(etalon, config, process.result())
                        for process in processes]:
            if problem is not None:
                return f'one of the competing: {problem}'
    elif name == 'forbidden':
        forbid(root)
        if not packages.is_accessible(root, 65534):
            raise Skip
        problem = problem_of(etalon, config,
                             packages.run(root, config, user=65534))
        if problem is not None:
            return f'with no permissions: {problem}'
        allow(root)
    elif name != 'usual':
        raise ValueError(name)
    for attempt in ('first', 'second', 'third'):
        problem = problem_of(etalon, config, packages.run(root, config))
        if problem is not None:
            return f'{attempt} import: {problem}'
        actual = packages.caches(root)
        for index, path in enumerate(sorted(etalon.caches)):
            kind = case['harms'][index % len(case['harms'])][0]
            if kind in ('directory', 'dangling') or harms[index]:
                continue
            if actual.get(path) != etalon.caches[path]:
                return f'{path} is not restored by the {attempt} import'
        if attempt == 'second' and not case.get('again'):
            break
    return None


def problem_of(etalon, config, outcome):
    result, error = outcome
    if error is not None:
        return f'failed: {error}'
    return packages.difference(etalon.expected, result, config['queries'])


def forbid(root):
    for directory, _, _ in os.walk(root, topdown=False):
        os.chmod(directory, 0o555)


def allow(root):
    for directory, _, _ in os.walk(root):
        os.chmod(directory, 0o755)


SUITES = {'harm': decide_harm}


# generating
def generate_harm(random_):
    def place():
        return random_.choice([random_.random(), random_.random(),
                               random_.random() ** 8,
                               -random_.randint(1, 40)])

    kind = random_.choice(['absent', 'truncated', 'truncated', 'zeros',
                           'garbage', 'garbage', 'version', 'version',
                           'lacking', 'blank', 'directory', 'dangling',
                           'bytecode', 'foreign bytecode'])
    return [kind, *{
        'absent': lambda: random_.choice([[], [True]]),
        'truncated': lambda: [place()],
        'zeros': lambda: [place(), 1 << random_.randint(0, 16)],
        'garbage': lambda: [place(), random_.randrange(len(GARBAGE))],
        'version': lambda: [random_.randrange(len(VERSIONS)),
                            random_.randint(0, 1)],
        'lacking': lambda: [random_.randrange(20)],
        'bytecode': lambda: [random_.random()
                             if random_.random() < 0.7 else 0],
    }.get(kind, list)()]


def generate(random_, paths):
    result = {'queries': random_.sample(paths, 120)}
    choice = random_.random()
    if choice < 0.35:
        result['harms'] = [generate_harm(random_)] * 2
    elif choice < 0.7:
        result['harms'] = random_.sample([generate_harm(random_), ['intact']],
                                         2)
    else:
        result['harms'] = [generate_harm(random_), generate_harm(random_)]
    if random_.random() < 0.3:
        result['circumstances'] = random_.choice([
            ['limited', int(2 ** random_.uniform(13, 24))],
            ['killed', round(random_.uniform(0, 14), 2)],
            ['competing', *[round(random_.choice([0, random_.uniform(0, 5)]),
                                  2)
                            for _ in range(random_.randint(2, 4))]],
            ['forbidden'],
        ])
    if random_.random() < 0.2:
        result['again'] = True
    return result


def simplest(case):
    """Tries to leave as few harms as possible."""
    candidates = [{**case, 'harms': [case['harms'][0], ['intact']]},
                  {**case, 'harms': [['intact'], case['harms'][1]]},
                  {key: value for key, value in case.items()
                   if key != 'circumstances'}]
    for candidate in candidates:
        try:
            if decide_harm(candidate) is not None:
                case = candidate
        except Skip:
            continue
    queries = case['queries']
    if len(queries) > 1:
        queries = shrinking.shrink_sequence(
                queries,
                lambda queries: bool(queries) and decide_harm(
                        {**case, 'queries': queries}
                ) is not None,
                seconds=60
        )
    return {**case, 'queries': queries}


def outcome_of(case):
    try:
        return decide_harm(case)
    except Skip:
        return Skip


def run(ctx):
    random_ = random.Random(ctx.seed + 19)
    try:
        etalon = reference()
        if etalon.error is not None:
            ctx.fail('harm', {'harms': [['absent']] * 2, 'queries': []},
                     f'failed to import: {etalon.error}')
            return
        paths = sorted(etalon.expected)
        ctx.notes['caches'] = {path: len(content)
                               for path, content in etalon.caches.items()}
        cases = [generate(random_, paths)
                 for _ in range(72 if ctx.quick else 2500)]
        with concurrent.futures.ThreadPoolExecutor(
                min(8, os.cpu_count() or 1)
        ) as executor:
            for case, message in zip(cases, executor.map(outcome_of, cases)):
                if message is Skip:
                    ctx.label('skipped')
                    continue
                sample = {key: value for key, value in case.items()
                          if key != 'queries'}
                for kind, *_ in case['harms']:
                    ctx.label(kind)
                ctx.count(case, True, sample=sample,
                          label=(case.get('circumstances') or ['usual'])[0])
                if message is None or len(ctx.violations) > 2:
                    continue
                case = simplest(case)
                ctx.fail('harm', case, outcome_of(case) or message)
    finally:
        close()
