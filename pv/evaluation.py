"""Namespace renderings are evaluated in."""
import sys

from paradigm import base

PUBLIC = {name: getattr(base, name)
          for name in ('OptionalParameter', 'OverloadedSignature',
                       'ParameterKind', 'PlainSignature',
                       'RequiredParameter')}


class Modules(dict):
    def __missing__(self, name):
        module = sys.modules.get(name)
        if module is None:
            raise KeyError(name)
        return module


def namespace():
    import builtins
    return Modules(PUBLIC, __builtins__=builtins)


def evaluate(source):
    code = compile(source, '<rendering>', 'eval')
    names = namespace()
    for name in code.co_names:
        if name in sys.modules:
            names.setdefault(name, sys.modules[name])
    return eval(code, dict(names))


def execute(source):
    names = dict(namespace())
    names.update({name: module for name, module in sys.modules.items()
                  if '.' not in name and name not in names})
    exec(compile(source, '<rendering>', 'exec', dont_inherit=True), names)
    return names
