"""Client of zygotes: performs operations in fresh interpreters."""
import concurrent.futures
import json
import os
import queue
import subprocess
import sys

from . import build


class Zygote:
    def __init__(self, root=None, *, seed='0', pycache=None, cwd='/'):
        self.process = subprocess.Popen(
                [sys.executable, '-m', 'pv.zygote'], cwd=cwd,
                env=build.child_env(root, seed=seed, pycache=pycache),
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True
        )
        self.is_ready = False

    def perform(self, operations, *, timeout=120):
        if not self.is_ready:
            line = self.process.stdout.readline()
            if not line:
                return {'died': 'on import'}
            self.is_ready = True
        self.process.stdin.write(json.dumps({'ops': operations,
                                             'timeout': timeout}) + '\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        return json.loads(line) if line else {'died': 'zygote'}

    def close(self):
        self.process.stdin.close()
        self.process.wait()


class Pool:
    """Equally prepared zygotes working in parallel."""

    def __init__(self, size=None, **kwargs):
        size = size or min(8, os.cpu_count() or 1)
        self.zygotes = queue.SimpleQueue()
        self.all = [Zygote(**kwargs) for _ in range(size)]
        for zygote in self.all:
            self.zygotes.put(zygote)
        self.executor = concurrent.futures.ThreadPoolExecutor(size)

    def perform(self, operations, **kwargs):
        zygote = self.zygotes.get()
        try:
            return zygote.perform(operations, **kwargs)
        finally:
            self.zygotes.put(zygote)

    def map(self, requests, **kwargs):
        return self.executor.map(
                lambda operations: self.perform(operations, **kwargs),
                requests
        )

    def close(self):
        self.executor.shutdown()
        for zygote in self.all:
            zygote.close()
