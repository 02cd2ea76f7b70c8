"""
Common machinery of the checks: counting of cases, generated-input search
with shrinking, replays, known findings and evidence.

A check module defines:
 - ``RULE``: how cases are made and what makes one non-trivial,
 - ``SUITES``: dictionary from suite name to function deciding
   a single JSON-able case - it returns ``None`` if the property holds for it
   and a message otherwise (or list of ``(identifier, message)`` pairs
   if case consists of separately identified parts),
 - ``run(ctx)``: generates cases and feeds them to ``ctx``.
"""
import hashlib
import json
import os
import time
import traceback

from .build import OUT, REPO, VERIF

MAX_REPORTED = int(os.environ.get("PV_MAX_REPORTED", 25))


class Skip(Exception):
    """Case is outside of the domain of the property."""


class Violation(Exception):
    pass


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


class Context:
    def __init__(self, property_, tier, seed, module):
        self.property, self.tier, self.seed = property_, tier, seed
        self.module = module
        self.quick = tier == 'quick'
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.classes = {}
        self.violations = []
        self.known_hits = {}
        self.exhaustive = None
        self.notes = {}
        self.started = time.time()
        self.known = load_known(property_)

    # counting
    def count(self, case, nontrivial, *, label=None, key=None, sample=None):
        self.evaluations += 1
        if label is not None:
            self.classes[label] = self.classes.get(label, 0) + 1
        if nontrivial:
            digest = hashlib.blake2b(
                    (canonical(case) if key is None else key).encode(),
                    digest_size=8
            ).digest()
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                n = len(self.nontrivial)
                # samples are spread over the run logarithmically
                if n & (n - 1) == 0 and len(self.samples) < 24:
                    self.samples.append(case if sample is None else sample)

    def label(self, name, count=1):
        self.classes[name] = self.classes.get(name, 0) + count

    # deciding
    def decide(self, suite, case):
        try:
            result = self.module.SUITES[suite](case)
        except Exception as error:
            if not (raised_by_library(error) or is_misuse(error)):
                raise
            result = ('unexpected exception from the library:\n'
                      + ''.join(traceback.format_exception(error))[-1500:])
        if result is None:
            return []
        if isinstance(result, str):
            return [(suite + ':' + canonical(case), result)]
        return list(result)

    def fail(self, suite, case, message, *, identifier=None):
        """Registers violation unless it is a known finding."""
        identifier = identifier or (suite + ':' + canonical(case))
        for index, finding in enumerate(self.known):
            if identifier in finding['identifiers']:
                self.known_hits.setdefault(index, set()).add(identifier)
                return False
        if len(self.violations) < MAX_REPORTED:
            self.violations.append((suite, case, message, identifier))
        return True

    def check(self, suite, case, nontrivial, **kwargs):
        """Decides enumerated case, returns whether the property held."""
        try:
            failures = self.decide(suite, case)
        except Skip:
            self.label('skipped')
            return True
        self.count(case, nontrivial, **kwargs)
        for identifier, message in failures:
            self.fail(suite, case, message, identifier=identifier)
        return not failures

    def search(self, suite, strategy, *, max_examples, nontrivial=None,
               label=None, simplify=None, offset=0):
        """
        Searches generated cases for a failing one and shrinks it.
        """
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings

        state = {'last': None}

        def decide(case):
            try:
                failures = self.decide(suite, case)
            except Skip:
                self.label('skipped')
                return
            self.count(case, nontrivial is None or bool(nontrivial(case)),
                       label=None if label is None else label(case))
            for identifier, message in failures:
                if any(identifier in finding['identifiers']
                       for finding in self.known):
                    self.fail(suite, case, message, identifier=identifier)
                    continue
                state['last'] = (case, message, identifier)
                raise Violation(message)

        test = hypothesis.given(strategy)(decide)
        test = settings(max_examples=max_examples, database=None,
                        deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(self.seed * 1000 + offset)(test)
        try:
            test()
        except Violation:
            case, message, identifier = state['last']
            self.fail(suite, case, message, identifier=identifier)
            return False
        except hypothesis.errors.Flaky as error:
            # e.g. result depends on the history of queries
            if state['last'] is None:
                raise
            case, message, identifier = state['last']
            self.fail(suite, case, message + f'\n(unstable: {error})',
                      identifier=identifier)
            return False
        return True

    # reporting
    def run(self):
        self.module.run(self)
        return self.finish()

    def finish(self):
        replay_dir = OUT / 'replay'
        paths = []
        if self.violations:
            replay_dir.mkdir(exist_ok=True)
        for index, (suite, case, message,
                    identifier) in enumerate(self.violations):
            path = replay_dir / f'{self.property}-{index}.json'
            path.write_text(json.dumps({
                'property': self.property, 'suite': suite, 'case': case,
                'identifier': identifier, 'message': message,
                'tier': self.tier, 'seed': self.seed
            }, indent=1, default=str))
            paths.append(path)
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.nontrivial),
            'rule': self.module.RULE,
            'samples': self.samples[:24],
        }
        if self.classes:
            coverage['classes'] = dict(sorted(self.classes.items()))
        if self.exhaustive is not None:
            coverage['exhaustive'] = self.exhaustive
        coverage.update(self.notes)
        evidence_dir = OUT / 'evidence'
        evidence_dir.mkdir(exist_ok=True)
        evidence = {
            'property': self.property, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration', 'coverage': coverage,
            'assumptions': getattr(self.module, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - self.started, 3),
            'violations': len(self.violations),
        }
        target = evidence_dir / f'{self.property}.json'
        temporary = target.with_suffix('.tmp')
        temporary.write_text(json.dumps(evidence, indent=1, default=str))
        os.replace(temporary, target)
        for index, finding in enumerate(self.known):
            if index in self.known_hits:
                print(f'KNOWN-FINDING: property={self.property} '
                      f'{finding["what"]}')
        print(f'{self.property} [{self.tier}, seed {self.seed}]: '
              f'{self.evaluations} cases, '
              f'{len(self.nontrivial)} distinct non-trivial, '
              f'{evidence["wall_s"]} s')
        for (suite, case, message, identifier), path in zip(self.violations,
                                                            paths):
            print(f'--- {suite}: {canonical(case)[:1500]}\n{message[:1500]}')
        for path in paths:
            print(f'VIOLATION property={self.property} replay={path}')
        return 1 if self.violations else 0

    def replay(self, path):
        with open(path) as file:
            data = json.load(file)
        for identifier, message in self.decide(data['suite'], data['case']):
            self.fail(data['suite'], data['case'], message,
                      identifier=identifier)
        for suite, case, message, identifier in self.violations:
            print(f'--- {suite}: {canonical(case)[:1500]}\n{message}')
        if self.violations:
            print(f'VIOLATION property={self.property} replay={path}')
            return 1
        print('replayed case holds')
        return 0


def load_known(property_):
    path = VERIF / 'known_findings.json'
    try:
        data = json.loads(path.read_text())
    except FileNotFoundError:
        return []
    return [{**entry, 'identifiers': frozenset(entry['identifiers'])}
            for entry in data['findings'] if entry['property'] == property_]


def raised_by_library(error):
    """Tells if exception went through the code of the library."""
    core = str(REPO / 'paradigm') + os.sep
    frame = error.__traceback__
    while frame is not None:
        if frame.tb_frame.f_code.co_filename.startswith(core):
            return True
        frame = frame.tb_next
    return False


def is_misuse(error):
    """
    Tells if exception could be caused by an object of the library being
    something else than it should be, e.g. by ``str`` of it. Failures
    of the environment are not like this.
    """
    return (isinstance(error, (TypeError, AttributeError, AssertionError,
                               LookupError, ValueError))
            and not isinstance(error, (json.JSONDecodeError, UnicodeError)))


def describe_error(error):
    return ''.join(traceback.format_exception_only(type(error),
                                                   error)).strip()
