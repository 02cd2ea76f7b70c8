"""
Queries from several threads. Depends on as few modules as possible
since what is imported is a part of experiments.
"""
import sys
import threading
import time

from pv import histories

# how long to wait for a thread which may be blocked by the others
PATIENCE = 0.02


class Random:
    """Linear congruential generator."""

    def __init__(self, seed):
        self.state = (seed * 2862933555777941757 + 3037000493) % 2 ** 64

    def below(self, limit):
        self.state = (self.state * 6364136223846793005
                      + 1442695040888963407) % 2 ** 64
        return (self.state >> 33) % limit


def perform(mode, seed, period, *paths_lists):
    """
    Makes queries of each list in a separate thread, returns their results.
    """
    results = [[None] * len(paths) for paths in paths_lists]
    barrier = threading.Barrier(len(paths_lists))
    scheduler = (Scheduler(len(paths_lists), seed, period)
                 if mode == 'controlled' else None)
    # imports are not what is to be interleaved
    values = [[resolve(path) for path in paths] for paths in paths_lists]

    def run(index):
        barrier.wait()
        if scheduler is not None:
            scheduler.enter(index)
        try:
            for position, value in enumerate(values[index]):
                results[index][position] = (
                    'absent' if value is ABSENT
                    else histories.fingerprint.of_result(value)
                )
        except BaseException as error:
            results[index].append(f'{type(error).__name__}: {error}')
        finally:
            if scheduler is not None:
                scheduler.leave(index)

    interval = sys.getswitchinterval()
    if mode == 'preemptive':
        sys.setswitchinterval(10 ** -(3 + seed % 4))
    threads = [threading.Thread(target=run, args=(index,), daemon=True)
               for index in range(len(paths_lists))]
    for thread in threads:
        thread.start()
    deadline = time.monotonic() + 100
    for thread in threads:
        thread.join(max(0.1, deadline - time.monotonic()))
    sys.setswitchinterval(interval)
    if any(thread.is_alive() for thread in threads):
        return 'hung'
    return results


ABSENT = object()


def resolve(path):
    try:
        return histories.resolve(path)
    except (Exception, SystemExit):
        return ABSENT


class Scheduler:
    """
    Lets only one thread go at a time, the next one is chosen
    at every executed line (and call) of the library at random.
    """

    def __init__(self, count, seed, period):
        import paradigm
        self.directory = paradigm.__path__[0]
        self.condition = threading.Condition()
        self.random = Random(seed)
        self.period = period
        self.active = list(range(count))
        self.current = 0
        self.indices = {}
        self.blocked = set()
        self.switches = 0

    def enter(self, index):
        self.indices[threading.get_ident()] = index
        with self.condition:
            self.wait_turn(index)
        sys.settrace(self.trace)

    def leave(self, index):
        sys.settrace(None)
        with self.condition:
            self.active.remove(index)
            self.blocked.discard(index)
            if self.active and self.current == index:
                self.choose()
            self.condition.notify_all()

    def choose(self):
        candidates = [index for index in self.active
                      if index not in self.blocked] or self.active
        self.current = candidates[self.random.below(len(candidates))]

    def wait_turn(self, index):
        self.blocked.discard(index)
        while self.current != index:
            current = self.current
            if (not self.condition.wait(PATIENCE)
                    and self.current == current != index):
                # seems to wait for something held by the others
                self.blocked.add(current)
                self.choose()
                self.condition.notify_all()
        self.condition.notify_all()

    def trace(self, frame, event, argument):
        if not frame.f_code.co_filename.startswith(self.directory):
            return None
        self.step()
        return self.trace_line

    def trace_line(self, frame, event, argument):
        if event == 'line':
            self.step()
        return self.trace_line

    def step(self):
        if self.random.below(self.period):
            return
        index = self.indices[threading.get_ident()]
        with self.condition:
            self.switches += 1
            self.choose()
            self.condition.notify_all()
            self.wait_turn(index)
