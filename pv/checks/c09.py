"""Signatures of user-defined functions against their descriptions."""
import inspect
import itertools
import sys

from hypothesis import strategies as st

from paradigm.base import signature_from_callable
from pv import stdlib, usercode
from pv.runner import Skip

RULE = ('Functions of generated declarations (kinds, defaults, annotations, '
        'lambdas, coroutines, postponed annotations) defined at every kind of '
        'nesting in modules with usual names, names of imported and '
        'not imported standard library modules, reserved names and without '
        'names; names of functions include those of built-ins, of standard '
        'library functions and stub-only names. A batch crosses every '
        'qualified path of the standard library (of which the library knows) '
        'with a user function carrying it. Oracle: the description. '
        'Non-trivial: function has parameters or carries a foreign name; '
        'distinct by the case.')
ASSUMPTIONS = ['modules which replace standard library ones in sys.modules '
               'are out of scope']
NESTINGS = ['top', 'class', 'nested class', 'local', 'local class', 'static',
            'reassigned']

DEFAULTS = usercode.DEFAULTS | st.sampled_from(['Hostile()', 'Hostile'])


def define(case):
    renderer = usercode.Renderer(future=case.get('future', False))
    spec, nesting = case['function'], case['nesting']
    name = spec['name']
    outer = case.get('outer', 'Outer')
    renderer.class_name = {'class': outer, 'static': outer,
                           'nested class': 'Inner',
                           'local class': 'Inner'}.get(nesting)
    if nesting == 'top':
        lines, expected = renderer.function(spec)
        namespace = renderer.execute(lines, case['module'])
        value = namespace[name]
    elif nesting == 'reassigned':
        lines, expected = renderer.function(spec)
        namespace = renderer.execute(lines, case['module'])
        value = namespace[name]
        value.__name__, value.__qualname__ = outer, f'{outer}.{name}'
    elif nesting in ('class', 'static'):
        lines, expected = renderer.function(
                spec, indent='    ',
                decorator='staticmethod' if nesting == 'static' else None
        )
        namespace = renderer.execute([f'class {outer}:', *lines],
                                     case['module'])
        value = inspect.getattr_static(namespace[outer],
                                       usercode.mangle(outer, name))
        if nesting == 'static' or isinstance(value, staticmethod):
            value = value.__func__
    elif nesting == 'nested class':
        lines, expected = renderer.function(spec, indent=' ' * 8)
        namespace = renderer.execute(
                [f'class {outer}:', '    class Inner:', *lines],
                case['module']
        )
        value = inspect.getattr_static(namespace[outer].Inner,
                                       usercode.mangle('Inner', name))
        if isinstance(value, staticmethod):
            value = value.__func__
    elif nesting == 'local':
        lines, expected = renderer.function(spec, indent='    ',
                                            name='result_')
        namespace = renderer.execute(
                [f'def {outer}():', *lines, '    return result_'],
                case['module']
        )
        value = namespace[outer]()
        value.__name__ = name
    else:
        lines, expected = renderer.function(spec, indent=' ' * 8)
        namespace = renderer.execute(
                [f'def {outer}():', '    class Inner:', *lines,
                 '    return Inner'], case['module']
        )
        value = inspect.getattr_static(namespace[outer](),
                                       usercode.mangle('Inner', name))
        if isinstance(value, staticmethod):
            value = value.__func__
    return value, expected


def decide(case):
    value, expected = define(case)
    if not inspect.isfunction(value):
        raise Skip
    before = (value.__defaults__, value.__kwdefaults__, value.__code__)
    signature = signature_from_callable(value)
    problem = usercode.compare(signature, expected)
    if problem:
        return problem
    if before != (value.__defaults__, value.__kwdefaults__, value.__code__):
        return 'function is modified'
    # repeated query
    return usercode.compare(signature_from_callable(value), expected)


def decide_disguised(case):
    """User function carrying qualified path of something else."""
    module, path = case
    spec = {'name': 'f', 'parameters': [[0, 'pv_x', 0, None, None],
                                        [3, 'pv_y', 1, 'int', '1']]}
    renderer = usercode.Renderer()
    lines, expected = renderer.function(spec)
    value = renderer.execute(lines, module)['f']
    value.__name__, value.__qualname__ = path.rsplit('.', 1)[-1], path
    return usercode.compare(signature_from_callable(value), expected)


SUITES = {'defined': decide, 'disguised': decide_disguised}


@st.composite
def cases(draw):
    case = {'module': draw(st.sampled_from(usercode.MODULES)),
            'nesting': draw(st.sampled_from(NESTINGS)),
            'function': draw(usercode.functions(defaults=DEFAULTS))}
    if draw(st.booleans()):
        case['outer'] = draw(st.sampled_from([
            'Outer', 'int', 'str', 'dict', 'object', 'Queue', 'type', 'Path',
            'OrderedDict', 'Tk', 'path', 'date'
        ]))
    if draw(st.integers(0, 4)) == 0:
        case['future'] = True
    return case


def known_paths():
    result = {tuple(path.split(':', 1)) for path in stdlib.callables()}
    try:
        # the ones found in stubs only
        from paradigm._core import stubs

        result |= {('.'.join(module_path), '.'.join(object_path))
                   for module_path, objects in stubs.raw_ast_nodes.items()
                   for object_path in objects}
    except (AttributeError, ImportError):
        pass
    return sorted(result)


def run(ctx):
    paths = known_paths()
    step = 2 if ctx.quick else 1
    for module, path in itertools.islice(paths, ctx.seed % step, None, step):
        ctx.check('disguised', [module, path], True, label='disguised')
    ctx.notes['known_paths'] = len(paths)
    ctx.search('defined', cases(),
               max_examples=2500 if ctx.quick else 60000,
               nontrivial=lambda case: (case['function']['parameters']
                                        or case['module'] != usercode.FRESH),
               label=lambda case: case['nesting'])
