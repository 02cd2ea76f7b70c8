"""Small user-defined functions and classes, given as source text."""
ANNOTATIONS = ['int', 't.List[str]', 't.Optional[int]', '"Forward"',
               't.Callable[..., t.Any]', 'dict', 't.TypeVar("T")', 'object']
NAMES = ['open', 'len', 'list', 'f', 'Thread', 'Path', 'print', 'partial',
         'run', 'join']


def generate(random):
    """Returns source with the name of a definition there."""
    name = random.choice(NAMES)
    parameters = []
    for index in range(random.randint(0, 3)):
        text = f'p{index}'
        if random.random() < 0.6:
            text += ': ' + random.choice(ANNOTATIONS)
        if index and parameters[-1].endswith('= None') or (
                random.random() < 0.3
        ):
            text += ' = None'
        parameters.append(text)
    signature = ', '.join(parameters)
    if random.random() < 0.6:
        source = f'import typing as t\ndef {name}({signature}): pass\n'
    else:
        base = random.choice(['object', 'dict', 'Exception'])
        source = (f'import typing as t\nclass {name}({base}):\n'
                  f'    def __init__(self'
                  f'{", " if signature else ""}{signature}): pass\n')
    if random.random() < 0.3:
        source = source.replace(
                'import typing as t\n',
                'import typing as t\n'
                f'__name__ = {random.choice(["os", "threading", "x"])!r}\n'
        )
    return source, name
