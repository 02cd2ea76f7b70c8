"""
Plants bugs: makes seeded/<id> from replacements and confirms that the bug
builds, passes the stable tests and is told apart by its demonstration,
then runs the checks against it.

    python tools/plant.py FILE.py [id...]     (re)creates bugs described in FILE
    python tools/plant.py --trial [id...]     only runs checks against bugs
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
WORK = Path('/tmp/plant')
PY = '/opt/venv/bin/python'
STABLE = json.loads(Path('/opt/vp/BASELINE.json').read_text())['stable']
DEMO_SH = '''#!/bin/bash
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
DEMO_HEAD = '''import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=str(cwd), shell=isinstance(cmd, str),
                          env={**os.environ, 'PYTHONHASHSEED': '0',
                               'PYTHONDONTWRITEBYTECODE': '1', **env},
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def copy(name):
    target = WORK / name
    if target.exists():
        shutil.rmtree(target)
    target.parent.mkdir(parents=True, exist_ok=True)
    shutil.copytree(REPO, target, symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__',
                                                  '.hypothesis'))
    return target


def build(root):
    script = Path('/opt/vp/build.sh').read_text().replace('/repo', str(root))
    return run(['bash', '-c', script], root)


def tests(root, name):
    xml = WORK / (name + '.xml')
    completed = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W',
                     'ignore', '--timeout=170', '--timeout-method=thread',
                     '--continue-on-collection-errors', '--hypothesis-seed=0',
                     '-n', '4', '--doctest-glob=README.md', '-o',
                     'junit_family=xunit2', f'--junitxml={xml}', 'tests',
                     'README.md'], root)
    out = WORK / (name + '.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', str(out),
                    f'junit:{xml}'], stdout=subprocess.DEVNULL)
    data = json.loads(out.read_text())
    passed = data.get('passed', data)
    missing = [name for name in STABLE if name not in passed]
    return missing, completed.stdout.decode()[-800:]


def make(spec):
    name = spec['id']
    target = copy(name)
    folder = VERIF / 'seeded' / name
    for path, old, new in spec['edits']:
        file = target / 'paradigm' / path
        text = file.read_text()
        if text.count(old) != 1:
            shutil.rmtree(target)
            return f'{name}: {path} {text.count(old)} OCCURENCES of {old}'
        file.write_text(text.replace(old, new))
    diff = run(['git', 'diff', '--no-color'], target).stdout.decode()
    assert diff, name
    if folder.exists():
        shutil.rmtree(folder)
    folder.mkdir(parents=True)
    (folder / 'patch.diff').write_text(diff)
    (folder / 'demo.sh').write_text(DEMO_SH)
    (folder / 'demo.py').write_text(DEMO_HEAD + spec['demo'].lstrip('\n'))
    os.chmod(folder / 'demo.sh', 0o755)
    (folder / 'meta.json').write_text(json.dumps(
            {'property': spec['property'], 'needs': spec['needs'],
             'what_it_breaks': spec['breaks']}, indent=1) + '\n')
    return confirm(name, target)


def confirm(name, target=None):
    folder = VERIF / 'seeded' / name
    if target is None:
        target = copy(name)
        applied = run(['git', 'apply', str(folder / 'patch.diff')], target)
        if applied.returncode:
            return f'{name}: DOES NOT APPLY {applied.stdout.decode()}'
    clean = copy(name + '-clean')
    build(clean)
    built = build(target)
    if built.returncode:
        return f'{name}: BUILD FAILED {built.stdout.decode()[-500:]}'
    on_clean = run(['bash', str(folder / 'demo.sh')], clean)
    on_patched = run(['bash', str(folder / 'demo.sh')], target)
    shutil.rmtree(clean)
    problems = []
    if on_clean.returncode:
        problems.append('demo fails on clean tree: '
                        + on_clean.stdout.decode()[-800:])
    if not on_patched.returncode:
        problems.append('demo passes on patched tree')
    missing, output = tests(target, name)
    if missing:
        problems.append(f'tests fail: {missing[:4]} {output}')
    return f'{name}: ' + ('OK' if not problems else '; '.join(problems))


def trial(name, properties=None, tier='quick'):
    folder = VERIF / 'seeded' / name
    target = copy(name)
    applied = run(['git', 'apply', str(folder / 'patch.diff')], target)
    if applied.returncode:
        return f'{name}: DOES NOT APPLY {applied.stdout.decode()}'
    out = WORK / (name + '-out')
    out.mkdir(parents=True, exist_ok=True)
    results = []
    properties = properties or [json.loads(
            (folder / 'meta.json').read_text())['property']]
    for property_ in properties:
        completed = run([str(VERIF / 'check.sh'), property_, tier], VERIF,
                        PV_REPO=str(target), PV_OUT=str(out), VERIF_SEED='1')
        text = completed.stdout.decode()
        caught = (completed.returncode == 1
                  and f'VIOLATION property={property_}' in text)
        results.append(f'{property_}={"CAUGHT" if caught else "missed"}'
                       f'({completed.returncode})')
        (out / f'{property_}.log').write_text(text)
    shutil.rmtree(target)
    return f'{name}: ' + ' '.join(results)


def main():
    args = sys.argv[1:]
    WORK.mkdir(exist_ok=True)
    jobs = int(os.environ.get('JOBS', '3'))
    with cf.ThreadPoolExecutor(jobs) as pool:
        if args[0] == '--trial':
            names = args[1:] or sorted(
                    path.name for path in (VERIF / 'seeded').iterdir())
            properties = os.environ.get('PROPS', '').split() or None
            for result in pool.map(lambda n: trial(n, properties), names):
                print(result, flush=True)
            return
        namespace = {}
        exec(Path(args[0]).read_text(), namespace)
        specs = [spec for spec in namespace['BUGS']
                 if not args[1:] or spec['id'] in args[1:]]
        good = []
        for spec, result in zip(specs, pool.map(make, specs)):
            print(result, flush=True)
            if result.endswith(': OK'):
                good.append(spec['id'])
            else:
                shutil.rmtree(VERIF / 'seeded' / spec['id'],
                              ignore_errors=True)
        for result in pool.map(trial, good):
            print(result, flush=True)


if __name__ == '__main__':
    main()
