"""Generated trees of stubs against their reading by the type checker."""
import concurrent.futures
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import time

from pv import build, trees
from pv.runner import Skip

RULE = ('Trees of stubs (along with the modules they describe) are generated '
        'at random in the dialect of typeshed, repaired by removing what the '
        'type checker or Python does not agree with and put in place of '
        'typeshed & the standard library for a new process importing the '
        'library: signatures of all of the functions, methods & classes are '
        'compared with what the type checker finds. Non-trivial: at least '
        'ten objects are compared; distinct by tree.')
ASSUMPTIONS = [
    'mypy reads stubs correctly',
    'what makes mypy complain is out of domain',
]


class Server:
    def __init__(self):
        build.WORK.mkdir(exist_ok=True, parents=True)
        self.directory = tempfile.mkdtemp(prefix='tree-', dir=build.WORK)
        env = build.child_env('/nonexistent')
        del env['PYTHONDONTWRITEBYTECODE']
        env['PV_REPO'] = str(build.REPO)
        self.process = subprocess.Popen(
                [sys.executable, '-m', 'pv.treeserver', self.directory],
                cwd='/', env=env, stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True
        )
        self.is_ready = False

    def ask(self, request):
        if not self.is_ready:
            if not self.process.stdout.readline():
                raise Exception('server of trees failed to start')
            self.is_ready = True
        self.process.stdin.write(json.dumps(request) + '\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise Exception('server of trees died')
        result = json.loads(line)
        if 'error' in result:
            raise Exception('server of trees failed:\n' + result['error'])
        return result

    def close(self):
        self.process.stdin.close()
        self.process.wait()
        shutil.rmtree(self.directory, ignore_errors=True)


class Servers:
    def __init__(self, size):
        self.free = queue.SimpleQueue()
        self.all = [Server() for _ in range(size)]
        for server in self.all:
            self.free.put(server)
        self.executor = concurrent.futures.ThreadPoolExecutor(size)

    def ask(self, request):
        server = self.free.get()
        try:
            return server.ask(request)
        finally:
            self.free.put(server)

    def close(self):
        self.executor.shutdown(cancel_futures=True)
        for server in self.all:
            server.close()


def path_of(problem):
    return problem[0].partition(' ')[0]


def shrink(servers, tree, path, *, seconds):
    """Removes everything the problem with given object doesn't need."""
    deadline = time.time() + seconds

    def fails(candidate):
        answer = servers.ask({'tree': candidate})
        return any(path_of(problem) == path
                   for problem in answer.get('problems', []))

    def drop(tree, dropped):
        # the last ones go first for the rest of paths to be kept valid
        for candidate in sorted(dropped, reverse=True):
            tree = trees.remove(tree, candidate)
        return tree

    depth = 1
    while time.time() < deadline:
        candidates = [path for path in trees.paths(tree)
                      if len(path) == depth]
        if not candidates:
            break
        size = max(1, len(candidates) // 2)
        while time.time() < deadline:
            chunks = [candidates[start:start + size]
                      for start in range(0, len(candidates), size)]
            results = list(servers.executor.map(
                    lambda chunk: fails(drop(tree, chunk)), chunks
            ))
            good = [path for chunk, result in zip(chunks, results) if result
                    for path in chunk]
            if good and (sum(results) == 1 or fails(drop(tree, good))):
                tree = drop(tree, good)
            elif good:
                tree = drop(tree, chunks[results.index(True)])
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
            candidates = [path for path in trees.paths(tree)
                          if len(path) == depth]
        depth += 1
    return tree


def show(tree):
    return '\n'.join(
            f'# {kind} of {module["name"]}'
            + (' (package)' if module['package'] else '') + '\n'
            + '\n'.join(trees.render(module['items'], key)[0])
            for module in tree
            for key, kind in [('s', 'stub'), ('r', 'module')]
    )


def decide(case):
    server = Server()
    try:
        answer = server.ask({'tree': case})
    finally:
        server.close()
    if 'invalid' in answer:
        raise Skip(answer['invalid'])
    return [(identify(case, problem), problem[1] + '\n' + show(case))
            for problem in answer['problems']]


def identify(tree, problem):
    return json.dumps([tree, path_of(problem)], sort_keys=True)


SUITES = {'tree': decide}


def run(ctx):
    servers = Servers(min(8, os.cpu_count() or 1))
    deadline = ctx.started + (150 if ctx.quick else 650)
    try:
        explore(ctx, servers, deadline)
    finally:
        servers.close()


def explore(ctx, servers, deadline):
    def process(index):
        if time.time() > deadline:
            return None
        seed = ctx.seed * 1_000_000 + index
        tree = trees.generate(seed, scale=[0.5, 1, 1.5][index % 3])
        answer = servers.ask({'tree': tree, 'repair': True})
        if 'invalid' in answer:
            return answer, None
        tree = answer['tree']
        return servers.ask({'tree': tree}), tree

    totals = {}
    failed = []
    for result in servers.executor.map(process, range(400 if ctx.quick
                                                      else 10_000)):
        if result is None:
            break
        answer, tree = result
        if 'invalid' in answer:
            ctx.label('skipped')
            continue
        for name, count in answer['counts'].items():
            totals[name] = totals.get(name, 0) + count
        ctx.count(tree, sum(answer['counts'].get(name, 0)
                            for name in ('functions', 'classes')) >= 10,
                  sample={'size': trees.size(tree),
                          'counts': answer['counts'],
                          'text': show(tree)[:3000]})
        if answer['problems']:
            failed.append((tree, answer['problems'][0]))
            if len(failed) > 20:
                break
    ctx.notes['compared'] = totals
    # the smallest ones are the easiest to deal with
    failed.sort(key=lambda pair: trees.size(pair[0]))
    for tree, problem in failed[:2]:
        reduced = shrink(servers, tree, path_of(problem), seconds=60)
        answer = servers.ask({'tree': reduced})
        problems = [candidate for candidate in answer.get('problems', [])
                    if path_of(candidate) == path_of(problem)]
        if not problems:
            # depends on circumstances
            reduced, problems = tree, [problem]
        ctx.fail('tree', reduced, problems[0][1] + '\n' + show(reduced),
                 identifier=identify(reduced, problems[0]))
