"""Writes MANIFEST.json from properties.jsonl and the present checks."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
TECHNIQUES = {
    'C01': 'exhaustive small-scope enumeration + Hypothesis, differential '
           'against real Python calls',
    'C02': 'exhaustive small-scope enumeration + Hypothesis chains of binds, '
           'reference model and real calls',
    'C03': 'exhaustive pairs + Hypothesis, reference union of alternatives',
    'C04': 'exhaustive small-scope enumeration + Hypothesis, differential '
           'against compile()/inspect.Signature',
    'C05': 'Hypothesis metamorphic respellings and single edits against '
           'canonical keys',
    'C06': 'Hypothesis round-trips over pickle protocols and copies, '
           'generated query histories',
    'C07': 'Hypothesis round-trip through eval(repr), generated query '
           'histories',
    'C08': 'Hypothesis/enumerated round-trip through executed declarations',
    'C09': 'Hypothesis generated modules and functions, declaration as oracle',
    'C10': 'Hypothesis generated class hierarchies, inspect/actual '
           'instantiation as oracle',
    'C11': 'Hypothesis generated methods and enumerated builtin ones, '
           'metamorphic binding relation and actual calls',
    'C12': 'Hypothesis generated chains of partials, metamorphic relation '
           'and actual calls',
    'C13': 'differential sweep of the standard library against the '
           'type checker with generated calls',
    'C14': 'differential sweep of the standard library annotations against '
           'the type checker',
    'C15': 'differential sweep of standard library classes against '
           'the type checker',
    'C16': 'fuzzing with standard library objects and generated hostile '
           'callables',
    'C17': 'Hypothesis generated query/import histories compared with '
           'fresh processes',
    'C18': 'differential rebuilding of caches under generated environments',
    'C19': 'generated corruption (fault injection) of on-disk caches',
    'C20': 'random generation of stub trees (with shrinking), differential '
           'against the type checker',
    'C21': 'generated concurrent schedules compared with sequential answers',
    'C22': 'differential against inspect over enumerated and generated '
           'callables',
}
NOTES = {}


def main():
    properties = [json.loads(line) for line in
                  (ROOT / 'properties.jsonl').read_text().splitlines()]
    checks, missing = [], []
    for property_ in properties:
        id_ = property_['id']
        if (ROOT / 'pv' / 'checks' / f'{id_.lower()}.py').exists():
            checks.append({
                'property': id_,
                'quick_cmd': f'./check.sh {id_} quick',
                'thorough_cmd': f'./check.sh {id_} thorough',
                'technique': TECHNIQUES[id_],
                'level': 'exploration',
                'level_note': NOTES.get(
                        id_,
                        'Generated-input search with an explicit oracle '
                        '(see DESIGN.md); trusts the oracle named in the '
                        'technique and CPython 3.12 / mypy 1.6.1 with its '
                        'typeshed as installed; absence of violations is '
                        'established only for the explored cases.'
                ),
            })
        else:
            missing.append({'property': id_,
                            'reason': 'the check is not built yet'})
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks are added to /repo. Checks regenerate the '
                 'git-ignored caches of the library from its working tree.',
    }
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')


main()
