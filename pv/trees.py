"""
Generated trees of stubs along with the modules they describe.

A tree is a list of modules, module consists of items, item is a dictionary:
 - "s" is what's written to the stub (nothing if absent),
 - "r" is what's written to the module itself (same),
 - "b" is a list of items nested into it, they are written with an indent
   after non-empty header and without one after an empty one
   (if there is no header, then they are not written as well).
"""
import copy
import random
import re

# for the names not to be taken for anything else
TOP_LEVEL = ('pvalpha', 'pvbeta', 'pvgamma', '_pvdelta')
INDENT = '    '

CLASSES = ('Node', 'Box', 'Pair', 'Base', 'Item', '_Mixin')
FUNCTIONS = ('load', 'dump', 'run', 'make', '_hidden', 'type_of', 'get')
METHODS = ('get', 'put', 'close', 'run', '_drop', 'make', '__add__',
           '__radd__', '__call__', '__enter__', '__getitem__', '__len__',
           '__eq__', 'keys', '__hidden')
ATTRIBUTES = ('name', 'size', 'left')
PARAMETERS = ('x', 'y', 'key', 'value', 'default', 'flag', 'other')
TYPE_VARS = ('_T', '_S', '_KT', '_VT', '_T_co', 'AnyThing')
PARAM_SPECS = ('_P', '_Q')
DEFAULTS = {
    '{}': 'dict[str, int]', '[]': 'list[int]', '{"a": -1}': 'dict[str, int]',
    '[1, 2]': 'list[int]', '("a", -1)': 'tuple[str, int]',
    '((), None)': 'tuple[tuple[int, ...], None]', '-1.5': 'float',
    '+1': 'int', '"it\'s"': 'str', 'b"\\x00\'"': 'bytes',
    '99999999999999999999': 'int', '2j': 'complex', '1e100': 'float',
    '(False,)': 'tuple[bool]', '"\\n\\u1234"': 'str', '""': 'str',
    '1 | 4': 'int', '-0.0': 'float', '6 & 3': 'int', '6 ^ 3': 'int',
}
ALIASES = ('_Alias', 'Path', '_Kind', 'Handler')


def render(items, key, depth=0, lines=None, origins=None, path=()):
    """Returns lines along with the paths of items they originate from."""
    if lines is None:
        lines, origins = [], []
    for index, item in enumerate(items):
        text, body = item.get(key), item.get('b')
        if text is None:
            continue
        item_path = (*path, index)
        for line in text.splitlines():
            lines.append(INDENT * depth + line)
            origins.append(item_path)
        if body is None:
            continue
        size = len(lines)
        render(body, key, depth + bool(text), lines, origins, item_path)
        if text and len(lines) == size:
            lines.append(INDENT * (depth + 1)
                         + ('...' if key == 's' else 'pass'))
            origins.append(item_path)
    return lines, origins


def remove(tree, path):
    """Returns tree without an item (or a whole module)."""
    result = copy.deepcopy(tree)
    module_index, *rest = path
    if not rest:
        del result[module_index]
        return result
    items = result[module_index]['items']
    for index in rest[:-1]:
        items = items[index]['b']
    del items[rest[-1]]
    return result


def dangling(tree):
    """
    Paths of aliases of methods there are no declarations of
    (they may become aliases of something outside of the class).
    """
    result = []

    def visit(items, path, defined):
        for index, item in enumerate(items):
            text = item.get('s') or ''
            body = item.get('b')
            match = re.fullmatch(r'(\w+) = (\w+)', text)
            if body is not None:
                visit(body, (*path, index),
                      set() if re.search(r'^class ', text, re.M)
                      else defined)
            elif match is None:
                if defined is not None:
                    defined.update(re.findall(r'^(?:async )?def (\w+)', text,
                                              re.M))
            elif defined is not None and match[2] in METHODS:
                if match[2] not in defined:
                    result.append((*path, index))
                defined.add(match[1])

    for module_index, module in enumerate(tree):
        visit(module['items'], (module_index,), None)
    return result


def paths(tree):
    """Paths of everything what could be removed, the biggest goes first."""
    result = []

    def visit(items, path):
        for index, item in enumerate(items):
            result.append((*path, index))
            visit(item.get('b') or [], (*path, index))

    for module_index, module in enumerate(tree):
        result.append((module_index,))
        visit(module['items'], (module_index,))
    return sorted(result, key=len)


def size(tree):
    return len(paths(tree))


class Entity:
    def __init__(self, kind, name, module, path, *, runtime=True,
                 parameters=(), active=True, methods=(), fields=()):
        self.kind, self.name, self.module, self.path = (kind, name, module,
                                                        path)
        self.runtime, self.parameters, self.active = (runtime, parameters,
                                                      active)
        self.methods, self.fields = list(methods), list(fields)
        self.nested = []


class Scope:
    """What could be used in annotations."""

    def __init__(self, items, header):
        # names are available in the order of items
        self.items, self.header = items, header
        # name to entity for what's present in stub & at runtime
        self.names = {}
        self.runtime_names = set()
        self.spellings = {}


CONDITIONS = [
    ('sys.version_info >= (3, 8)', True),
    ('sys.version_info >= (3, 12)', True),
    ('sys.version_info >= (3, 13)', False),
    ('sys.version_info < (3, 10)', False),
    ('sys.version_info < (3, 14)', True),
    ('sys.platform == "linux"', True),
    ('sys.platform == "win32"', False),
    ('sys.platform != "win32"', True),
    ('sys.platform != "win32" and sys.version_info >= (3, 9)', True),
    ('sys.platform == "darwin" or sys.version_info >= (3, 14)', False),
    ('sys.version_info >= (3,)', True),
    ('sys.platform != "linux" and sys.platform != "darwin"', False),
]
TYPING_NAMES = {
    'List': ['typing'], 'Dict': ['typing'], 'Tuple': ['typing'],
    'Any': ['typing'],
    'Union': ['typing'], 'Optional': ['typing'],
    'Callable': ['typing', 'collections.abc'],
    'Iterable': ['typing', 'collections.abc'],
    'Iterator': ['typing', 'collections.abc'],
    'Sequence': ['typing', 'collections.abc'],
    'Mapping': ['typing', 'collections.abc'],
    'Sized': ['typing', 'collections.abc'],
    'Awaitable': ['typing', 'collections.abc'],
    'Type': ['typing'],
    'ClassVar': ['typing'],
    'Literal': ['typing', 'typing_extensions'],
    'Generic': ['typing'], 'Protocol': ['typing'],
    'NamedTuple': ['typing'], 'TypeVar': ['typing'],
    'ParamSpec': ['typing', 'typing_extensions'],
    'TypeAlias': ['typing', 'typing_extensions'],
    'Self': ['typing', 'typing_extensions'],
    'NoReturn': ['typing'], 'TypeGuard': ['typing', 'typing_extensions'],
    'Concatenate': ['typing', 'typing_extensions'],
    'overload': ['typing'],
    'final': ['typing', 'typing_extensions'],
    'AnyStr': ['typing'],
    'deque': ['collections'], 'OrderedDict': ['collections'],
    'TracebackType': ['types'], 'FrameType': ['types'],
    'ModuleType': ['types'],
    'abstractmethod': ['abc'], 'ABCMeta': ['abc'],
    'SupportsRead': ['_typeshed'], 'StrPath': ['_typeshed'],
    'Incomplete': ['_typeshed'], 'SupportsRichComparison': ['_typeshed'],
    'ReadableBuffer': ['_typeshed'],
}


class Generator:
    def __init__(self, seed, *, scale=1.0):
        self.random = random.Random(seed)
        self.scale = scale
        # names reachable in the body of the current class only
        self.class_names = {}
        self.modules = []

    # helpers
    def chance(self, probability):
        return self.random.random() < probability

    def pick(self, values):
        return self.random.choice(list(values))

    # tree
    def tree(self):
        count = self.random.randint(1, len(TOP_LEVEL))
        layout = []
        for name in self.random.sample(TOP_LEVEL, count):
            if self.chance(0.35):
                sub = [f'{name}.{sub_name}'
                       for sub_name in self.random.sample(
                            ('inner', '_impl', 'pvalpha', 'util'),
                            self.random.randint(1, 2)
                    )]
                package = (name, True)
                nested = [(sub_name, False) for sub_name in sub]
                if self.chance(0.3):
                    nested.append((sub[0].rpartition('.')[0] + '.deep', True))
                    nested.append((nested[-1][0] + '.core', False))
                layout += ([*nested, package] if self.chance(0.6)
                           else [package, *nested])
            else:
                layout.append((name, False))
        # what's imported is defined before
        for name, is_package in layout:
            self.modules.append(self.module(name, is_package))
        return [{'name': module.name, 'package': module.is_package,
                 'items': module.header + module.items}
                for module in self.modules]

    def module(self, name, is_package):
        module = Module(name, is_package)
        self.current = module
        if self.modules:
            for _ in range(self.random.randint(0, 4)):
                self.import_something(module)
        for _ in range(int(self.random.randint(4, 14) * self.scale)):
            self.statement(module, module.items, module.scope(), True)
        return module

    # imports
    def import_something(self, module):
        other = self.pick(self.modules)
        is_runtime = self.chance(0.7)
        visible = {name: entity for name, entity in other.names.items()
                   if entity.kind != 'module'}
        form = self.pick(['import', 'import as', 'from', 'from', 'from',
                          'from as', 'export', 'star', 'star', 'relative',
                          'submodule', 'private'])

        def add(text, *, runtime=is_runtime):
            module.header.append({'s': text, 'r': text} if runtime
                                 else {'s': text})

        if form == 'import':
            add(f'import {other.name}')
            module.prefixes.append((other.name, other, is_runtime))
        elif form == 'import as':
            alias = self.pick(['al', '_be', other.name.split('.')[-1]])
            if alias in module.taken:
                return
            module.taken.add(alias)
            add(f'import {other.name} as {alias}')
            module.prefixes.append((alias, other, is_runtime))
        elif form == 'submodule' and '.' in other.name:
            package, _, leaf = other.name.rpartition('.')
            if leaf in module.taken:
                return
            module.taken.add(leaf)
            if module.name.startswith(package) and self.chance(0.7):
                relative = self.relative(module, package)
                if relative is not None:
                    package = relative
            add(f'from {package} import {leaf}')
            module.prefixes.append((leaf, other, is_runtime))
        elif form == 'star':
            exported = [name for name in other.names
                        if not name.startswith('_')
                        and (other.names[name].module == other.name
                             or name in other.exported)]
            if set(exported) & module.taken:
                return
            source = self.source(module, other)
            add(f'from {source} import *')
            for name in exported:
                self.bind(module, name, other.names[name],
                          is_runtime)
                module.exported.add(name)
        else:
            candidates = [name for name, entity in visible.items()
                          if entity.module == other.name
                          or entity.name != name or form == 'private']
            if not candidates:
                return
            names = self.random.sample(candidates,
                                       min(len(candidates),
                                           self.random.randint(1, 3)))
            source = self.source(module, other)
            for name in names:
                entity = other.names[name]
                runtime = is_runtime and entity.runtime
                if form == 'from as':
                    alias = self.pick([name + '_', '_' + name.strip('_'),
                                       *CLASSES])
                elif form == 'export':
                    alias = name
                else:
                    alias = name
                if alias in module.taken:
                    continue
                add(f'from {source} import {name}'
                    + (f' as {alias}' if alias != name or form == 'export'
                       else ''),
                    runtime=runtime)
                self.bind(module, alias, entity, runtime)
                if form == 'export':
                    module.exported.add(alias)

    def relative(self, module, name):
        """Returns relative reference to the module if there is any."""
        parts = module.name.split('.')
        base = parts if module.is_package else parts[:-1]
        target = name.split('.')
        if not base or target[:1] != base[:1]:
            return None
        common = 0
        while (common < min(len(base), len(target))
               and base[common] == target[common]):
            common += 1
        return '.' * (len(base) - common + 1) + '.'.join(target[common:])

    def source(self, module, other):
        relative = self.relative(module, other.name)
        return (relative if relative is not None and self.chance(0.6)
                else other.name)

    def bind(self, module, name, entity, runtime):
        module.taken.add(name)
        bound = copy.copy(entity)
        bound.runtime = entity.runtime and runtime
        module.names[name] = bound

    # statements
    def statement(self, module, items, scope, is_active, depth=0):
        roll = self.random.random()
        if roll < 0.32:
            self.function(module, items, scope, is_active)
        elif roll < 0.62:
            self.class_(module, items, scope, is_active)
        elif roll < 0.72:
            self.type_var(module, items, scope, is_active)
        elif roll < 0.77:
            self.param_spec(module, items, scope, is_active)
        elif roll < 0.83:
            self.alias(module, items, scope, is_active)
        elif roll < 0.87:
            self.callable_variable(module, items, scope, is_active)
        elif roll < 0.93 and depth < 2:
            self.condition(
                    items, is_active,
                    lambda body, active: self.statement(
                            module, body, scope, active, depth + 1
                    )
            )
        else:
            self.rename(module, items, scope, is_active)

    def condition(self, items, is_active, fill):
        """Appends conditional branches, filled using given function."""
        self.spell_module('sys')
        rest = True
        for index in range(self.random.randint(1, 2)):
            text, value = self.pick(CONDITIONS)
            body = []
            active = is_active and rest and value
            for _ in range(self.random.randint(1, 2)):
                fill(body, active)
            items.append({'s': ('if ' if not index else 'elif ') + text + ':',
                          **({'r': ''} if active else {}), 'b': body})
            rest = rest and not value
        if self.chance(0.6):
            body = []
            active = is_active and rest
            for _ in range(self.random.randint(1, 2)):
                fill(body, active)
            items.append({'s': 'else:', **({'r': ''} if active else {}),
                          'b': body})

    def spell_module(self, name):
        module = self.current
        if name not in module.imported:
            module.imported.add(name)
            module.taken.add(name)
            module.header.insert(0, {'s': f'import {name}',
                                     'r': f'import {name}'})
        return name

    def spell(self, name, *, force=None):
        """Returns how the name of standard library is spelled in module."""
        module = self.current
        if name in module.spellings and self.chance(0.9):
            return module.spellings[name]
        source = self.pick(TYPING_NAMES[name])
        form = self.pick(['from', 'from', 'from', 'module', 'as', 'alias'])
        if source == '_typeshed':
            form = 'from'
        if form == 'module':
            self.spell_module(source)
            result = f'{source}.{name}'
        elif form == 'as':
            short = {'typing': 't', 'typing_extensions': 'te',
                     'collections.abc': 'cabc'}.get(source)
            if short is None:
                self.spell_module(source)
                result = f'{source}.{name}'
            else:
                if short not in module.imported:
                    module.imported.add(short)
                    module.taken.add(short)
                    text = f'import {source} as {short}'
                    module.header.insert(0, {'s': text, 'r': text})
                result = f'{short}.{name}'
        else:
            result = name if form == 'from' else '_' + name
            if result in module.taken:
                if module.spellings.get(name) == result:
                    return result
                self.spell_module(source)
                result = f'{source}.{name}'
            else:
                module.taken.add(result)
                text = (f'from {source} import {name}'
                        + (f' as {result}' if result != name else ''))
                module.header.insert(0, {'s': text} if source == '_typeshed'
                                     else {'s': text, 'r': text})
        module.spellings.setdefault(name, result)
        return result

    def fresh(self, module, names):
        candidates = [name for name in names if name not in module.taken]
        if not candidates:
            return None
        name = self.pick(candidates)
        module.taken.add(name)
        return name

    def type_var(self, module, items, scope, is_active):
        name = self.fresh(module, TYPE_VARS)
        if name is None:
            return
        spelled = self.spell('TypeVar')
        form = self.pick(['', '', '', 'bound', 'values', 'co', 'contra'])
        arguments = [f'{name!r}']
        runtime_arguments = list(arguments)
        if name == '_T_co':
            arguments.append('covariant=True')
            runtime_arguments = list(arguments)
        elif form == 'bound':
            bound = self.type(scope, depth=1, variables=())
            # means the absence of a bound at runtime
            arguments.append('bound=' + (bound if bound != 'None'
                                         else 'object'))
        elif form == 'values':
            first, second = self.random.sample(['str', 'bytes', 'int',
                                                'float'], 2)
            arguments += [first, second]
            runtime_arguments = list(arguments)
        elif form == 'contra':
            arguments.append('contravariant=True')
            runtime_arguments = list(arguments)
        text = f'{name} = {spelled}({", ".join(arguments)})'
        runtime = is_active and form != 'bound' and self.chance(0.6)
        item = {'s': text}
        if runtime:
            item['r'] = text
        items.append(item)
        if is_active:
            entity = Entity('typevar', name, module.name, (name,),
                            runtime=runtime)
            entity.variance = form if name != '_T_co' else 'co'
            module.names[name] = entity

    def param_spec(self, module, items, scope, is_active):
        name = self.fresh(module, PARAM_SPECS)
        if name is None:
            return
        text = f'{name} = {self.spell("ParamSpec")}({name!r})'
        runtime = is_active and self.chance(0.6)
        items.append({'s': text, 'r': text} if runtime else {'s': text})
        if is_active:
            module.names[name] = Entity('paramspec', name, module.name,
                                        (name,), runtime=runtime)

    def alias(self, module, items, scope, is_active):
        name = self.fresh(module, ALIASES)
        if name is None:
            return
        value = self.type(scope, depth=2, variables=(), composite=True)
        if self.chance(0.12):
            other = self.fresh(module, ALIASES)
            if other is not None:
                # mutually recursive
                type_alias = self.spell('TypeAlias')
                items.append({'s': f'{name}: {type_alias} '
                                   f'= dict[str, {other}]'})
                items.append({'s': f'{other}: {type_alias} '
                                   f'= list[{name}] | {value}'})
                if is_active:
                    for key in (name, other):
                        module.names[key] = Entity('alias', key, module.name,
                                                   (key,), runtime=False)
                return
        if self.chance(0.7):
            text = f'{name}: {self.spell("TypeAlias")} = {value}'
        else:
            text = f'{name} = {value}'
        items.append({'s': text})
        if is_active:
            module.names[name] = Entity('alias', name, module.name, (name,),
                                        runtime=False)

    def rename(self, module, items, scope, is_active):
        candidates = [(name, entity) for name, entity in module.names.items()
                      if entity.kind == 'function'
                      or (entity.kind == 'class'
                          and entity.module == module.name)]
        if not candidates or not is_active:
            return
        old, entity = self.pick(candidates)
        name = self.fresh(module, CLASSES if entity.kind == 'class'
                          else FUNCTIONS)
        if name is None:
            return
        names = [name]
        if self.chance(0.25):
            other = self.fresh(module, CLASSES if entity.kind == 'class'
                               else FUNCTIONS)
            if other is not None:
                names.append(other)
        text = ' = '.join([*names, old])
        runtime = text
        if entity.kind == 'function' and self.chance(0.5):
            # implemented on its own
            runtime = '\n'.join(f'def {name}(*args, **kwargs): pass'
                                for name in names)
            entity = copy.copy(entity)
            entity.runtime = True
        items.append({'s': text, 'r': runtime}
                     if entity.runtime or runtime != text else {'s': text})
        for name in names:
            module.names[name] = entity

    def callable_variable(self, module, items, scope, is_active):
        name = self.fresh(module, FUNCTIONS)
        if name is None:
            return
        arguments = ', '.join(self.type(scope, 2, ())
                              for _ in range(self.random.randint(0, 3)))
        if self.chance(0.8):
            arguments = f'[{arguments}]'
        else:
            arguments = '...'
        annotation = (f'{self.spell("Callable")}[{arguments}, '
                      f'{self.type(scope, 2, ())}]')
        items.append({'s': f'{name}: {annotation}',
                      **({'r': f'def {name}(*args, **kwargs): pass'}
                         if is_active else {})})

    # functions
    def function(self, module, items, scope, is_active):
        name = self.fresh(module, FUNCTIONS)
        if name is None:
            return
        runtime = (['async '] if self.chance(0.1) else [''])[0]
        self.declarations(items, scope, name, is_active,
                          runtime=f'def {name}(*args, **kwargs): pass',
                          prefix=runtime)
        if is_active:
            module.names[name] = Entity('function', name, module.name,
                                        (name,))

    def declarations(self, items, scope, name, is_active, *, runtime,
                     prefix='', first=None, decorators=(), returns=None,
                     variables=None, runtime_decorators=()):
        count = self.pick([1, 1, 1, 1, 2, 2, 3])
        texts = []
        for _ in range(count):
            lines = [f'@{decorator}' for decorator in decorators]
            if count > 1:
                lines.insert(0, f'@{self.spell("overload")}')
            lines.append(f'{prefix}def {name}('
                         + ', '.join(self.parameters(scope, first, variables))
                         + ')' + self.returns(scope, returns, variables)
                         + ': ...')
            texts.append('\n'.join(lines))
        runtime = '\n'.join([*[f'@{decorator}'
                               for decorator in runtime_decorators], runtime])
        condition = count == 1 and self.chance(0.08)
        if condition:
            other = f'{prefix}def {name}({first or ""}): ...'
            for decorator in reversed(decorators):
                other = f'@{decorator}\n{other}'
            self.spell_module('sys')
            test, value = self.pick(CONDITIONS)
            bodies = [[{'s': texts[0]}], [{'s': other}]]
            bodies[not value][0]['s'], bodies[value][0]['s'] = (
                texts[0], other
            )
            if is_active:
                items.append({'s': '', 'r': runtime})
            items.append({'s': f'if {test}:', 'b': bodies[0]})
            items.append({'s': 'else:', 'b': bodies[1]})
            return
        for index, text in enumerate(texts):
            items.append({'s': text, **({'r': runtime}
                                        if is_active and not index else {})})

    def returns(self, scope, forced, variables):
        if forced is not None:
            return f' -> {forced}'
        if self.chance(0.05):
            return ''
        if self.chance(0.05):
            return f' -> {self.spell("NoReturn")}'
        if self.chance(0.05):
            return (f' -> {self.spell("TypeGuard")}'
                    f'[{self.type(scope, depth=1, variables=())}]')
        return ' -> ' + self.type(scope, variables=variables)

    def parameters(self, scope, first, variables):
        result = [] if first is None else [first]
        names = self.random.sample(PARAMETERS,
                                   self.random.randint(0, 4))
        kinds = sorted(self.random.choices(['po', 'pk', 'pk', 'pk', 'ko'],
                                           k=len(names)),
                       key=['po', 'pk', 'ko'].index)
        style = self.pick(['slash', 'dunder'])
        optional = False
        is_variadic = self.chance(0.15)
        param_spec = (self.pick(self.param_specs(scope))
                      if self.param_specs(scope) and self.chance(0.3)
                      else None)
        if param_spec is not None:
            kinds = [kind for kind in kinds if kind != 'ko']
            names = names[:len(kinds)]
        has_star = False
        for index, (name, kind) in enumerate(zip(names, kinds)):
            if kind == 'ko' and not has_star:
                has_star = True
                result.append('*args: ' + self.type(scope, depth=1,
                                                    variables=variables)
                              if is_variadic else '*')
            if kind != 'ko':
                optional = optional or self.chance(0.25)
                is_optional = optional
            else:
                is_optional = self.chance(0.5)
            spelled = '__' + name if kind == 'po' and style == 'dunder' else (
                name
            )
            result.append(self.parameter(scope, spelled, is_optional,
                                         variables))
            if (kind == 'po' and style == 'slash'
                    and kinds[index + 1:index + 2] != ['po']):
                result.append('/')
        if param_spec is not None:
            result += [f'*args: {param_spec}.args',
                       f'**kwargs: {param_spec}.kwargs']
            return result
        if is_variadic and not has_star:
            result.append('*args: ' + self.type(scope, depth=1,
                                                variables=variables))
        if self.chance(0.12):
            result.append('**kwargs: ' + self.type(scope, depth=1,
                                                   variables=variables))
        return result

    def parameter(self, scope, name, is_optional, variables):
        if not is_optional:
            return (name if self.chance(0.04)
                    else f'{name}: {self.type(scope, variables=variables)}')
        form = self.pick(['...', '...', 'None', '0', '-1', 'True', '"a"',
                          'b""', '1.5', '()', *DEFAULTS])
        annotation = {
            '...': lambda: self.type(scope, variables=variables),
            'None': lambda: self.type(scope, variables=variables) + ' | None',
            '0': lambda: 'int', '-1': lambda: 'int', 'True': lambda: 'bool',
            '"a"': lambda: 'str', 'b""': lambda: 'bytes',
            '1.5': lambda: 'float', '()': lambda: 'tuple[int, ...]',
            **{source: lambda source=source: DEFAULTS[source]
               for source in DEFAULTS}
        }[form]()
        return f'{name}: {annotation} = {form}'

    # types
    def param_specs(self, scope):
        return [text for text, entity in self.visible()
                if entity.kind == 'paramspec']

    def visible(self):
        """Yields everything nameable in the current module."""
        module = self.current
        for name, entity in module.names.items():
            yield name, entity
        for prefix, other, _ in module.prefixes:
            for name, entity in other.names.items():
                if entity.module == other.name and entity.path == (name,):
                    yield f'{prefix}.{name}', entity

    def type_vars(self, variables):
        return (variables if variables is not None
                else [text for text, entity in self.visible()
                      if entity.kind == 'typevar'])

    def type(self, scope, depth=3, variables=None, composite=False):
        roll = self.random.random()
        if depth <= 0 or (roll < 0.3 and not composite):
            return self.pick(['int', 'str', 'bytes', 'float', 'object',
                              'bool', 'None', 'int', 'str',
                              self.spell('Any')])
        if roll < 0.42 and not composite:
            type_vars = self.type_vars(variables)
            if type_vars:
                return self.pick(type_vars)
        if self.class_names and roll < 0.48 and not composite:
            text, entity = self.pick(list(self.class_names.items()))
            return self.parametrize(scope, text, entity, depth, variables)
        if roll < 0.68 and not composite:
            candidates = [(text, entity) for text, entity in self.visible()
                          if entity.kind in ('class', 'alias')]
            if candidates:
                text, entity = self.pick(candidates)
                if entity.kind == 'class' and entity.nested and self.chance(
                        0.4
                ):
                    nested = self.pick(entity.nested)
                    return f'{text}.{nested.name}'
                return self.parametrize(scope, text, entity, depth, variables)

        def sub():
            return self.type(scope, depth - 1, variables)

        form = self.pick(['list', 'List', 'Optional', 'Union', '|', 'tuple',
                          'tuple...', 'Callable', 'Callable...', 'type',
                          'Literal', 'dict', 'deque', 'Iterable', 'Mapping',
                          'Sequence', 'Iterator', 'Awaitable', 'Type',
                          'Dict', 'Tuple', 'set', 'bare', 'std', 'spec'])
        if form in ('list', 'set'):
            return f'{form}[{sub()}]'
        if form in ('List', 'Iterable', 'Sequence', 'Iterator', 'Awaitable',
                    'deque'):
            return f'{self.spell(form)}[{sub()}]'
        if form == 'Optional':
            return f'{self.spell("Optional")}[{sub()}]'
        if form == 'Union':
            return f'{self.spell("Union")}[{sub()}, {sub()}]'
        if form == '|':
            return f'{sub()} | {sub()}'
        if form == 'tuple':
            return f'tuple[{sub()}, {sub()}]'
        if form == 'Tuple':
            return f'{self.spell("Tuple")}[{sub()}, {sub()}]'
        if form == 'tuple...':
            return f'tuple[{sub()}, ...]'
        if form == 'Callable':
            arguments = ', '.join(sub()
                                  for _ in range(self.random.randint(0, 2)))
            return f'{self.spell("Callable")}[[{arguments}], {sub()}]'
        if form == 'Callable...':
            return f'{self.spell("Callable")}[..., {sub()}]'
        if form == 'spec':
            param_specs = self.param_specs(scope)
            if not param_specs or variables == ():
                return 'int'
            param_spec = self.pick(param_specs)
            if self.chance(0.4):
                param_spec = (f'{self.spell("Concatenate")}'
                              f'[{sub()}, {param_spec}]')
            return f'{self.spell("Callable")}[{param_spec}, {sub()}]'
        if form in ('type', 'Type'):
            spelled = form if form == 'type' else self.spell('Type')
            argument = self.type(scope, 1, variables)
            return (spelled if argument == 'None' or 'Literal' in argument
                    else f'{spelled}[{argument}]')
        if form == 'Literal':
            values = self.random.sample(["'a'", '1', 'True', 'None', "b'x'",
                                         '-1', "'b c'"],
                                        self.random.randint(1, 3))
            return f'{self.spell("Literal")}[{", ".join(values)}]'
        if form == 'dict':
            return f'dict[str, {sub()}]'
        if form in ('Dict', 'Mapping'):
            return f'{self.spell(form)}[{sub()}, {sub()}]'
        if form == 'bare':
            return self.pick(['list', 'dict', 'tuple', 'type',
                              self.spell('Callable'),
                              self.spell('Sequence')])
        if form == 'std':
            return self.pick([
                self.spell('TracebackType'), self.spell('FrameType'),
                self.spell('ModuleType'), self.spell('StrPath'),
                self.spell('Incomplete'), self.spell('ReadableBuffer'),
                f'{self.spell("SupportsRead")}[{sub()}]'
            ])
        raise ValueError(form)

    def parametrize(self, scope, text, entity, depth, variables):
        if not entity.parameters:
            return text
        if self.chance(0.12):
            return text
        return (text + '['
                + ', '.join(self.type(scope, depth - 1, variables)
                            for _ in entity.parameters) + ']')

    # classes
    def class_(self, module, items, scope, is_active, *, parent=None,
               depth=0):
        pool = CLASSES if parent is None else ('Inner', 'Meta', 'State')
        if parent is None:
            name = self.fresh(module, pool)
        else:
            name = self.pick([candidate for candidate in pool
                              if candidate not in parent.taken])
            parent.taken.add(name)
        if name is None:
            return None
        path = (name,) if parent is None else (*parent.path, name)
        entity = Entity('class', name, module.name, path)
        entity.taken = set()
        entity.visible_methods, entity.origins = {}, {}
        if self.chance(0.1):
            self.named_tuple(scope, items, entity, is_active)
        else:
            self.ordinary_class(module, scope, items, entity, is_active,
                                depth)
        if is_active and parent is None:
            module.names[name] = entity
        elif is_active:
            parent.nested.append(entity)
            self.class_names[name] = entity
        return entity

    def named_tuple(self, scope, items, entity, is_active):
        spelled = self.spell('NamedTuple')
        body = []
        fields = self.random.sample(('first', 'second', 'third'),
                                    self.random.randint(1, 3))
        optional = False
        for field in fields:
            optional = optional or self.chance(0.2)
            annotation = self.type(scope, 2, ())
            text = f'{field}: {annotation}' + (' = ...' if optional else '')
            body.append({'s': text, 'r': f'{field}: "object"'
                                         + (' = 0' if optional else '')})
        entity.is_named_tuple = True
        header = f'class {entity.name}({spelled}):'
        items.append({'s': header, **({'r': header} if is_active else {}),
                      'b': body})

    def class_bases(self, module, scope):
        """Returns bases in the stub, at runtime & entities of known ones."""
        stub, runtime, entities, type_vars = [], [], [], []
        own = [text for text, entity in self.visible()
               if entity.kind == 'typevar' and '.' not in text and not getattr(
                        entity, 'variance', '') in ('bound',)]
        own = [text for text in own]
        is_generic = own and self.chance(0.4)
        variables = (self.random.sample(own, min(len(own),
                                                 self.random.randint(1, 2)))
                     if is_generic else [])
        candidates = [(text, entity) for text, entity in self.visible()
                      if entity.kind == 'class'
                      and not getattr(entity, 'is_named_tuple', False)]
        # siblings of a nested class
        siblings = [(text, entity)
                    for text, entity in self.class_names.items()
                    if not getattr(entity, 'is_named_tuple', False)]
        # generics may not be inherited specialised differently
        origins = {}
        for _ in range(self.pick([0, 0, 1, 1, 1, 2] if not self.class_names
                                 else [0, 1, 1, 2])):
            if siblings and self.chance(0.4):
                pool = siblings
            else:
                pool = candidates
            if pool and self.chance(0.65):
                text, entity = self.pick(pool)
                if any(entity is other for other in entities):
                    continue
                if entity.nested and self.chance(0.25):
                    nested = self.pick(entity.nested)
                    text, entity = f'{text}.{nested.name}', nested
                if entity.parameters:
                    arguments = [
                        self.pick(variables)
                        if variables and self.chance(0.6)
                        else (self.pick(list(self.class_names))
                              if self.class_names and self.chance(0.4)
                              else self.type(scope, 2, tuple(variables)))
                        for _ in entity.parameters
                    ]
                    type_vars += [argument for argument in arguments]
                    base = f'{text}[{", ".join(arguments)}]'
                    base_origins = {
                        (entity.module, entity.path): base,
                        **{origin: f'{base}: {value}'
                           for origin, value in entity.origins.items()}
                    }
                else:
                    base, base_origins = text, entity.origins
                if any(origins.get(origin, value) != value
                       for origin, value in base_origins.items()):
                    continue
                origins.update(base_origins)
                stub.append(base)
                entities.append(entity)
                if entity.runtime:
                    runtime.append(text)
            else:
                argument = (self.pick(variables) if variables
                            and self.chance(0.6)
                            else (self.pick(list(self.class_names))
                                  if self.class_names and self.chance(0.4)
                                  else self.type(scope, 1, tuple(variables))))
                form = self.pick(['list', 'dict', 'Sequence', 'Iterable',
                                  'Exception', 'deque', 'object', 'Sized',
                                  'Mapping'])
                if form not in ('Exception', 'object', 'Sized'):
                    value = f'{form}[{argument}]'
                    if origins.setdefault('Iterable', value) != value:
                        continue
                if form in ('Exception', 'object'):
                    stub.append(form)
                    runtime.append(form)
                elif form in ('list', 'dict'):
                    stub.append(f'list[{argument}]' if form == 'list'
                                else f'dict[str, {argument}]')
                    runtime.append(form)
                elif form == 'Sized':
                    stub.append(self.spell(form))
                elif form == 'Mapping':
                    stub.append(f'{self.spell(form)}[str, {argument}]')
                else:
                    spelled = self.spell(form)
                    stub.append(f'{spelled}[{argument}]')
                    if form == 'deque':
                        runtime.append(spelled)
        return stub, runtime, entities, variables, origins

    def ordinary_class(self, module, scope, items, entity, is_active, depth):
        stub, runtime, bases, variables, entity.origins = self.class_bases(
                module, scope
        )
        has_class_getitem = False
        used = [variable for variable in variables
                if any(variable in base for base in stub)]
        if variables and (set(used) != set(variables) or self.chance(0.5)):
            generic = ('Protocol' if not stub and self.chance(0.3)
                       else 'Generic')
            stub.append(f'{self.spell(generic)}[{", ".join(variables)}]')
            if self.chance(0.7):
                has_class_getitem = True
        elif not stub and self.chance(0.08):
            stub.append(self.spell('Protocol'))
        entity.parameters = tuple(variables)
        entity.runtime = is_active and self.chance(0.85)
        body = []
        if has_class_getitem:
            body.append({'r': '__class_getitem__ = classmethod('
                              'type(list[int]))'})
        outer_names = self.class_names
        self.class_names = {}
        inherited = [method for base in bases if not base.runtime
                     for method in base.methods]
        for name, kind in inherited:
            body.append({'r': self.runtime_method(name, kind)})
        for _ in range(int(self.random.randint(0, 6) * self.scale)):
            self.member(module, body, scope, entity, True, variables, depth)
        self.class_names = outer_names
        if self.chance(0.06):
            stub.append(f'metaclass={self.spell("ABCMeta")}')
        header = f'class {entity.name}' + (f'({", ".join(stub)})' if stub
                                           else '') + ':'
        item = {'s': header, 'b': body}
        if self.chance(0.1):
            item['s'] = f'@{self.spell("final")}\n{header}'
        if entity.runtime:
            item['r'] = f'class {entity.name}' + (
                f'({", ".join(runtime)})' if runtime else ''
            ) + ':'
        items.append(item)

    @staticmethod
    def runtime_method(name, kind):
        decorator = {'class': '@classmethod\n', 'static': '@staticmethod\n',
                     'property': '@property\n'}.get(kind, '')
        if name == '__new__':
            return ('def __new__(cls, *args, **kwargs): '
                    'return super().__new__(cls)')
        return f'{decorator}def {name}(*args, **kwargs): pass'

    def member(self, module, body, scope, entity, is_active, variables,
               depth, level=0):
        roll = self.random.random()
        if roll < 0.06 and level < 1:
            self.condition(
                    body, is_active,
                    lambda items, active: self.member(
                            module, items, scope, entity, active, variables,
                            depth, level + 1
                    )
            )
            return
        if roll < 0.15 and depth < 2 and level == 0 and len(
                entity.nested
        ) < 2:
            self.class_(module, body, scope, is_active, parent=entity,
                        depth=depth + 1)
            return
        if roll < 0.2:
            name = self.pick(ATTRIBUTES)
            if name not in entity.taken:
                entity.taken.add(name)
                body.append({'s': f'{name}: {self.type(scope, 1, ())}'})
            return
        if roll < 0.23 and is_active and level == 0:
            self.class_alias(module, body, entity)
            return
        if roll < 0.29 and is_active and level == 0:
            methods = [name for name, kind in entity.methods
                       if name in entity.visible_methods]
            candidates = [name for name in METHODS
                          if name not in entity.taken]
            if methods and candidates:
                name, old = self.pick(candidates), self.pick(methods)
                if old.startswith('__h') or name.startswith('__h'):
                    return
                entity.taken.add(name)
                text = f'{name} = {old}'
                body.append({
                    's': text,
                    'r': (text if self.chance(0.5)
                          else self.runtime_method(
                              name, entity.visible_methods[old]
                          ))
                })
            return
        kind = self.pick(['instance', 'instance', 'instance', 'class',
                          'static', 'property', 'init', 'init', 'new'])
        name = (f'__{kind}__' if kind in ('init', 'new')
                else self.pick(METHODS))
        if kind in ('class', 'static', 'property') and name.startswith('__'):
            kind = 'instance'
        if name in entity.taken:
            return
        entity.taken.add(name)
        first = {'class': 'cls', 'new': 'cls', 'static': None}.get(kind,
                                                                   'self')
        decorators = {'class': ['classmethod'], 'static': ['staticmethod'],
                      'property': ['property']}.get(kind, [])
        method_variables = (None if not variables else
                            list(variables) if self.chance(0.7) else None)
        if kind == 'property':
            body.append({'s': f'@property\ndef {name}(self) -> '
                              + self.type(scope, 2, ()) + ': ...',
                         **({'r': self.runtime_method(name, kind)}
                            if is_active else {})})
            return
        returns = {'init': 'None', 'new': self.spell('Self')}.get(kind)
        if returns is None and self.chance(0.15) and kind != 'static':
            returns = self.spell('Self')
        prefix = ('async ' if kind == 'instance' and self.chance(0.06)
                  and not name.startswith('__') else '')
        self.declarations(body, scope, name, is_active,
                          runtime=self.runtime_method(name, kind),
                          prefix=prefix, first=first, decorators=decorators,
                          returns=returns, variables=method_variables)
        if is_active:
            entity.methods.append((name, kind))
            if level == 0:
                entity.visible_methods[name] = kind

    def class_alias(self, module, body, entity):
        candidates = [(name, other) for name, other in module.names.items()
                      if other.kind == 'class' and not other.parameters]
        names = [name for name in ('Kind', 'Choice', 'set')
                 if name not in entity.taken]
        if not candidates or not names:
            return
        name, (old, other) = self.pick(names), self.pick(candidates)
        entity.taken.add(name)
        text = f'{name} = {old}'
        # what precedes it would mean something else
        body.insert(0, {'s': text, 'r': text} if other.runtime
                    else {'s': text})
        alias = copy.copy(other)
        alias.name = name
        entity.nested.append(alias)
        self.class_names[name] = alias


class Module:
    def __init__(self, name, is_package):
        self.name, self.is_package = name, is_package
        self.header, self.items = [], []
        self.names = {}
        # names reachable using star imports besides the own ones
        self.exported = set()
        self.taken = {'int', 'str'}
        self.imported = set()
        self.spellings = {}
        self.prefixes = []

    def scope(self):
        return self


def generate(seed, *, scale=1.0):
    return Generator(seed, scale=scale).tree()
