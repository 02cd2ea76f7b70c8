"""
Generation of annotations in many spellings.

Annotation is a JSON-able tree, ``key`` of a tree identifies what it denotes,
``render`` gives a source string in one of the spellings.
"""
import json

from hypothesis import strategies as st

ATOMS = {
    'int': ['int'], 'str': ['str'], 'float': ['float'], 'bytes': ['bytes'],
    'object': ['object'], 'bool': ['bool'], 'complex': ['complex'],
    'User': ['User'], 'Nested': ['User.Nested'], 'Color': ['Color'],
    'UserProtocol': ['UserProtocol'], 'Exception': ['Exception'],
    'Any': ['t.Any', 'te.Any', 'typing.Any'],
    'None': ['None'],
    'Self': ['te.Self', 't.Self'],
    'NoReturn': ['t.NoReturn', 'te.NoReturn'],
    'LiteralString': ['te.LiteralString'],
    'Hashable': ['t.Hashable', 'collections.abc.Hashable'],
    'Sized': ['t.Sized', 'collections.abc.Sized'],
    'AnyStr': ['t.AnyStr', 't.TypeVar("AnyStr", bytes, str)'],
    'T': ['T', 't.TypeVar("T")'], 'S': ['S', 't.TypeVar("S")'],
    'BT': ['BT', 't.TypeVar("BT", bound=int)'],
    'BT2': ['t.TypeVar("BT", bound=str)'],
    'BL': ['t.TypeVar("BL", bound=t.List[int])',
           't.TypeVar("BL", bound=list[int])'],
    'CT': ['CT', 't.TypeVar("CT", int, str)'],
    'CT2': ['t.TypeVar("CT", str, int)'],
    'CT3': ['t.TypeVar("CT", str, int, bytes)'],
    'CTL': ['t.TypeVar("CTL", t.List[int], str)',
            't.TypeVar("CTL", list[int], str)'],
    'CTL2': ['t.TypeVar("CTL", t.List[str], str)',
             't.TypeVar("CTL", list[str], str)'],
    'COT': ['COT', 't.TypeVar("COT", covariant=True)'],
    'CNT': ['CNT', 't.TypeVar("CNT", contravariant=True)'],
    'COT2': ['t.TypeVar("COT")'],
    'NT': ['NT', 't.NewType("NT", int)'],
    'NT2': ['t.NewType("NT", str)'],
    'NTS': ['NTS', 't.NewType("NTS", str)'],
    'NTL': ['NTL', 't.NewType("NTL", t.List[int])',
            't.NewType("NTL", list[int])'],
    'NTN': ['NTN', 't.NewType("NTN", NT)',
            't.NewType("NTN", t.NewType("NT", int))'],
}
# unacceptable as arguments of generics
TOP_ATOMS = {
    'P': ['P', 'te.ParamSpec("P")', 't.ParamSpec("P")'],
    'P2': ['te.ParamSpec("P2")', 't.ParamSpec("P2")'],
    'PB': ['te.ParamSpec("PB", bound=t.List[int])',
           't.ParamSpec("PB", bound=list[int])'],
    'PB2': ['te.ParamSpec("PB", bound=t.List[str])',
            't.ParamSpec("PB", bound=list[str])'],
    'P.args': ['P.args', 'te.ParamSpec("P").args'],
    'P.kwargs': ['P.kwargs', 't.ParamSpec("P").kwargs'],
    'P2.args': ['t.ParamSpec("P2").args'],
    '"int"': ['"int"'], '"str"': ['"str"'],
}
GENERICS = {
    'list': (1, ['t.List', 'list']),
    'set': (1, ['t.Set', 'set']),
    'frozenset': (1, ['t.FrozenSet', 'frozenset']),
    'dict': (2, ['t.Dict', 'dict']),
    'type': (1, ['t.Type', 'type']),
    'deque': (1, ['t.Deque', 'collections.deque']),
    'defaultdict': (2, ['t.DefaultDict', 'collections.defaultdict']),
    'OrderedDict': (2, ['t.OrderedDict', 'collections.OrderedDict']),
    'Counter': (1, ['t.Counter', 'collections.Counter']),
    'ChainMap': (2, ['t.ChainMap', 'collections.ChainMap']),
    'Iterable': (1, ['t.Iterable', 'collections.abc.Iterable']),
    'Iterator': (1, ['t.Iterator', 'collections.abc.Iterator']),
    'Sequence': (1, ['t.Sequence', 'collections.abc.Sequence']),
    'Collection': (1, ['t.Collection', 'collections.abc.Collection']),
    'AbstractSet': (1, ['t.AbstractSet', 'collections.abc.Set']),
    'Mapping': (2, ['t.Mapping', 'collections.abc.Mapping']),
    'MutableMapping': (2, ['t.MutableMapping',
                           'collections.abc.MutableMapping']),
    'Awaitable': (1, ['t.Awaitable', 'collections.abc.Awaitable']),
    'Generator': (3, ['t.Generator', 'collections.abc.Generator']),
    'UserGeneric': (1, ['UserGeneric']),
    'tuple': (None, ['t.Tuple', 'tuple']),
}
LITERALS = ['0', '1', '-1', 'True', 'False', 'None', '""', '"a"', '"b"',
            'b"a"', 'Color.RED', 'Color.BLUE', '"None"']


def key(tree):
    kind, *rest = tree
    if kind == 'atom':
        return rest[0]
    if kind == 'bare':
        return rest[0] + '[?]'
    if kind == 'gen':
        name, args = rest
        return f'{name}[{", ".join(map(key, args))}]'
    if kind == 'vartuple':
        return f'tuple[{key(rest[0])}, ...]'
    if kind == 'union':
        return 'Union[' + ' | '.join(sorted(map(key, rest[0]))) + ']'
    if kind == 'literal':
        return 'Literal[' + ', '.join(sorted(set(rest[0]))) + ']'
    if kind == 'callable':
        args, returns = rest
        return (f'Callable[{args if isinstance(args, str) else list(map(key, args))}, '
                f'{key(returns)}]')
    if kind == 'annotated':
        return f'Annotated[{key(rest[0])}, {rest[1]}]'
    raise ValueError(tree)


def render(tree, choose, *, builtin=True, pipes=True):
    """``choose`` picks an element of a list."""
    def recur(subtree):
        return render(subtree, choose, builtin=builtin, pipes=pipes)

    kind, *rest = tree
    if kind == 'atom':
        return choose(ATOMS.get(rest[0]) or TOP_ATOMS[rest[0]])
    if kind == 'bare':
        if rest[0] == 'Callable':
            return choose(['t.Callable', 'collections.abc.Callable'])
        return choose(GENERICS[rest[0]][1])
    if kind == 'gen':
        name, args = rest
        origin = choose(GENERICS[name][1] if builtin
                        else GENERICS[name][1][:1])
        return f'{origin}[{", ".join(map(recur, args)) or "()"}]'
    if kind == 'vartuple':
        return f'{choose(["t.Tuple", "tuple"])}[{recur(rest[0])}, ...]'
    if kind == 'union':
        members = list(rest[0])
        shuffled = []
        while members:
            member = choose(members)
            members.remove(member)
            shuffled.append(member)
        style = choose(['union', 'pipe', 'optional'] if pipes
                       else ['union', 'optional'])
        if style == 'optional' and ['atom', 'None'] in shuffled:
            rest_ = [recur(member) for member in shuffled
                     if member != ['atom', 'None']]
            return ('t.Optional[' + (rest_[0] if len(rest_) == 1
                                     else f't.Union[{", ".join(rest_)}]')
                    + ']')
        if style == 'pipe':
            return '(' + ' | '.join(map(recur, shuffled)) + ')'
        return f't.Union[{", ".join(map(recur, shuffled))}]'
    if kind == 'literal':
        values = list(rest[0])
        shuffled = []
        while values:
            value = choose(values)
            values.remove(value)
            shuffled.append(value)
        return f'{choose(["t.Literal", "te.Literal"])}[{", ".join(shuffled)}]'
    if kind == 'callable':
        args, returns = rest
        origin = choose(['t.Callable', 'collections.abc.Callable'])
        if isinstance(args, str):
            rendered = args
        else:
            rendered = f'[{", ".join(map(recur, args))}]'
        return f'{origin}[{rendered}, {recur(returns)}]'
    if kind == 'annotated':
        return (f'{choose(["t.Annotated", "te.Annotated"])}'
                f'[{recur(rest[0])}, {rest[1]}]')
    raise ValueError(tree)


def distinct(trees):
    return list({key(tree): tree for tree in trees}.values())


def to_union(trees):
    members = distinct(trees)
    return members[0] if len(members) == 1 else ['union', members]


def _extend(inner):
    not_union = inner.filter(lambda tree: tree[0] != 'union')

    @st.composite
    def generics(draw):
        name = draw(st.sampled_from(sorted(GENERICS)))
        arity, _ = GENERICS[name]
        if arity is None:
            arity = draw(st.integers(0, 3))
        return ['gen', name, [draw(inner) for _ in range(arity)]]

    @st.composite
    def callables(draw):
        args = draw(st.one_of(st.lists(inner, max_size=3),
                              st.sampled_from(['...', 'P'])))
        return ['callable', args, draw(inner)]

    return st.one_of(
            generics(),
            st.lists(not_union, min_size=2, max_size=4).map(to_union),
            callables(),
            inner.map(lambda tree: ['vartuple', tree]),
            # nested annotations are merged
            inner.filter(lambda tree: tree[0] != 'annotated').map(
                    lambda tree: ['annotated', tree, '"x"']
            ),
    )


_leaves = st.one_of(
        st.sampled_from(sorted(ATOMS)).map(lambda name: ['atom', name]),
        st.sampled_from([*sorted(GENERICS), 'Callable'])
        .map(lambda name: ['bare', name]),
        st.lists(st.sampled_from(LITERALS), min_size=1, max_size=4,
                 unique=True).map(lambda values: ['literal', values])
)
trees = st.one_of(
        st.recursive(_leaves, _extend, max_leaves=6),
        st.sampled_from(sorted(TOP_ATOMS)).map(lambda name: ['atom', name])
)


@st.composite
def rendered(draw, tree=None):
    """Draws ``[source, key]`` pair."""
    if tree is None:
        tree = draw(trees)
    source = render(tree, lambda options: (options[0]
                                           if len(options) == 1
                                           else draw(st.sampled_from(options))))
    return [source, key(tree)]


def dumps(tree):
    return json.dumps(tree)
