"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, pathlib
M = 'paradigm/_core/models.py'
S = 'paradigm/_core/signatures.py'
ST = 'paradigm/_core/stubs.py'
A = 'paradigm/_core/annotated.py'
E = 'paradigm/_core/arboreal/evaluation.py'
def P(id, title, statement, over, q, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))
props = [
P('C01', 'expects/all_set of a plain signature follow Python call rules',
  'For every plain signature and every choice of positional and keyword arguments, `expects` is true exactly when a Python function with those parameters would not reject the arguments as surplus, unknown or duplicated (missing ones aside), and `all_set` is true exactly when such a function could be called with them outright. '
  'In particular `all_set` implies `expects`, only the number of positional arguments and the names of keyword arguments matter (never their values), and neither query raises or changes the signature.',
  ['inputs'], 'every valid parameter list (all five kinds, required/optional, any length and names, including names shared by positional-only parameters and keywords collected by **kwargs) x every argument tuple and keyword mapping',
  'The tests sample a few hundred Hypothesis signatures with arguments drawn to fit or misfit one parameter kind at a time and only compare expects with bind/all_set of the library itself; Python\'s own call semantics is never the oracle and the combinations (**kwargs + name already taken positionally, positional-only name in kwargs) are not reached.',
  [M], [('PlainSignature.expects', M), ('PlainSignature.all_set', M)], ['PlainSignature.expects', 'PlainSignature.all_set']),
P('C02', 'bind is partial application',
  'Binding acceptable arguments to a plain signature yields the signature of the partially applied callable as `functools.partial` defines it: positionally bound parameters disappear, a keyword-bound parameter becomes an optional keyword-only one whose default is the bound value, positional-or-keyword parameters after it become keyword-only and a variadic positional one after it disappears, everything else (names, annotations, defaults, order, returns) is preserved. '
  'Consequently for all further arguments the bound signature expects / is fully set by exactly what the original expects / is fully set by with the combined arguments (later keywords overriding earlier ones; names of parameters bound positionally may reappear as extra keywords of a variadic one), binding nothing changes nothing, binding positionals in two steps equals binding them in one, and the original is never modified. '
  'Arguments that are not expected make `bind` raise TypeError and nothing else.',
  ['inputs', 'histories'], 'every valid signature x every sequence of bind steps with any arguments',
  'The tests only check that bind result has fewer/optional parameters for arguments that fit one kind at a time; values bound by keyword, composition over several binds and agreement with functools.partial are never checked.',
  [M], [('PlainSignature.bind', M), ('_bind_positionals', M), ('_bind_keywords', M)], ['PlainSignature.bind', 'functools.partial', 'inspect.signature']),
P('C03', 'An overloaded signature is exactly the union of its alternatives',
  'For every overloaded signature and arguments, `expects` (and `all_set`) is true exactly when it is true for at least one alternative, and `bind` yields the bindings of precisely the alternatives that expect the arguments, in their original order, collapsing to a plain signature when one is left. '
  'When no alternative expects the arguments `bind` raises TypeError, and the alternatives of a signature are exposed unchanged, in order and without loss or merging of duplicates.',
  ['inputs', 'histories'], 'every list of two or more plain signatures x every sequence of argument lists',
  'Tests only use a few random overloads and never compare with the per-alternative results.',
  [M], [('OverloadedSignature', M), ('from_signatures', M)], ['OverloadedSignature.expects', 'OverloadedSignature.all_set', 'OverloadedSignature.bind', 'OverloadedSignature.signatures']),
P('C04', 'Exactly the declarable parameter lists can be constructed',
  'A plain signature can be constructed from a list of parameters exactly when a Python function declaration with these parameters is legal: unique names, kinds in declaration order, at most one variadic of each kind, no required positional parameter after an optional one (keyword-only ones may be ordered freely); otherwise ValueError is raised. '
  'Required parameters reject variadic kinds and variadic parameters reject defaults with ValueError, kinds that are not ParameterKind members and non-plain alternatives raise TypeError, overloaded signatures with fewer than two alternatives raise ValueError. '
  'Whatever is accepted exposes back exactly the given name, kind, annotation, default and returns.',
  ['inputs'], 'every list of parameters (legal or not) up to the explored length, every value given as annotation/default/returns/kind',
  'Tests draw only legal lists, plus a few hand-made illegal shapes; the boundary between legal and illegal is a property of all lists and is not compared with the Python compiler.',
  [M], [('PlainSignature.__new__', M), ('RequiredParameter.__new__', M), ('OptionalParameter.__new__', M), ('OverloadedSignature.__new__', M), ('_validate_kind', M)], ['constructors of paradigm.base models']),
P('C05', 'Equality is a structural equivalence consistent with hashing',
  'Equality of parameters and signatures is reflexive, symmetric and transitive, and two objects that are built alike - same parameter kinds, names, defaults, annotations, returns, where annotations are compared by what they denote (union members and literal alternatives in any order, type variables and such by their definition, `typing.List` and `list` spellings alike in either direction) - are equal, while a difference in any single of these makes them unequal. '
  'Equal hashable objects have equal hashes, comparison with foreign objects is False rather than an error, and `!=` is the negation of `==`.',
  ['inputs'], 'every pair / triple of signatures and parameters over the grammar of annotations',
  'Tests check reflexivity, symmetry and hashing on independently drawn signatures that are practically always different or the same object; structurally equal but distinct objects (and nearly equal ones) with compound annotations are not generated.',
  [M, A], [('are_equal', A), ('__eq__/__hash__ of models', M)], ['==', '!=', 'hash']),
P('C06', 'Pickling and copying preserve signatures',
  'For every parameter and signature (hand-made, obtained from a callable or produced by bind), pickling with any protocol that supports slotted classes (2 and later) and unpickling, `copy.copy` and `copy.deepcopy` yield an object of the same class equal to the original with equal observable parts. '
  'It behaves identically in expects/all_set/bind and the original is unaffected. '
  'This does not depend on which other signatures have been queried in the process before.',
  ['inputs', 'histories'], 'every constructible signature/parameter with picklable annotations and defaults, all pickle protocols, optional parameters with and without default including default None',
  'Tests pickle random signatures with one protocol and compare by == only; hash/behaviour/has_default state, deep copies and signatures resulting from bind or from the standard library are not covered.',
  [M], [('__getnewargs_ex__/__getnewargs__', M)], ['pickle', 'copy']),
P('C07', 'repr evaluates back to an equal object',
  'For every parameter and signature whose annotations and defaults are themselves expressible by evaluable expressions, evaluating its `repr` in a namespace holding the public classes and the modules mentioned yields an object of the same class equal to the original, whichever other signatures have been queried in the process before.',
  ['inputs'], 'every constructible signature over annotations from the typing grammar (classes, generic aliases of both spellings, unions of both spellings, literals, callables, type variables, param specs, nested to any depth) and evaluable defaults',
  'Tests evaluate repr of randomly drawn flat signatures with a fixed set of annotations; PEP 585/604 forms over type variables, param specs and nesting are missed.',
  [M, A], [('__repr__ of models', M), ('to_repr', A)], ['repr', 'eval']),
P('C08', 'str is a faithful Python-like rendering',
  '`str` of a plain signature is a Python parameter list with return annotation: placed in a function declaration (unspecified defaults aside) it declares the same parameters in the same order with the same names, kinds, annotations and defaults and the same return annotation. '
  '`str` of an overloaded signature is the renderings of its alternatives in order joined by " | ".',
  ['inputs'], 'every constructible signature, all kinds and combinations of separators',
  'Tests only check that str returns a string (or nothing at all); placement of "/", "*" and variadics depends on the combination of kinds.',
  [M, A], [('PlainSignature.__str__', M), ('parameters __str__', M)], ['str']),
P('C09', 'User-defined functions get exactly their own declared signature',
  'For every Python function defined outside the standard library - whatever its module, name or nesting, including names shadowing builtins and modules sharing names with anything - `signature_from_callable` reports its declared parameters in order with their names, kinds, annotations (Any when absent) and the very default objects, and its declared return annotation. '
  'It never reports the signature of another object. (Modules which replace standard library ones in sys.modules are out of scope.)',
  ['programs'], 'every function definable by def / async def / lambda / generator / nested / decorated with functools.wraps-free wrappers, any module and qualified names',
  'Tests use a dozen hand-written functions with distinct names in one test module.',
  [S, 'paradigm/_core/scoping.py', 'paradigm/_core/catalog.py'], [('from_callable for FunctionType', S), ('_from_raw_signature', S), ('resolve_object_path', 'paradigm/_core/scoping.py')], ['signature_from_callable']),
P('C10', 'User-defined classes are reported by the constructor Python would use',
  'For every class defined outside the standard library `signature_from_callable` reports the parameters with which instances are created - those of the __init__ or __new__ (or metaclass __call__) Python\'s own introspection selects along the MRO, without the instance/class parameter - with exact defaults, and returns Self. '
  'This covers plain, inheriting, dataclass, NamedTuple, enum-free, metaclass and nested classes, and class names that coincide with builtins or standard library names.',
  ['programs'], 'every user class hierarchy in the explored grammar',
  'Tests have a handful of fixed classes.',
  [S], [('from_callable for type', S), ('_to_class_builder_qualified_path', S)], ['signature_from_callable']),
P('C11', 'Bound methods expect what remains after binding their receiver',
  'For every instance, class and static method, accessed through an instance, a class, a subclass or super(), user-defined or builtin, the reported signature of the accessed object is that of the function it would run with the implicit first argument removed precisely when Python passes it implicitly. '
  'Hence the signature of a bound method equals the signature of its underlying function with the receiver bound, whatever name the method is bound under (aliases, lambdas, decorated, private names).',
  ['programs', 'inputs'], 'every way of defining and accessing a method x every method of standard library instances',
  'Tests use few methods whose name equals their attribute and do not relate bound and unbound signatures.',
  [S], [('from_callable for MethodType', S), ('from_callable for BuiltinMethodType', S), ('_parameters_from', S)], ['signature_from_callable']),
P('C12', 'Signatures of partial objects',
  'For every `functools.partial` object over a supported callable (including partials of partials, methods and classes), the reported signature equals binding the same positional and keyword arguments to the signature of the wrapped callable, and agrees with what calling the partial object accepts.',
  ['programs', 'inputs'], 'every supported callable x every acceptable partial arguments, nested to any depth',
  'Tests build partials with arguments chosen from a few fixed callables and check only the type of result or bounds on parameters.',
  [S, M], [('from_callable for partial', S), ('PlainSignature.bind', M)], ['signature_from_callable']),
P('C13', 'Standard library callables report the parameters typeshed declares',
  'For every function and method of the importable standard library that typeshed declares for the running Python version and platform, the reported signature has one alternative per declared overload, in order, with the declared parameter names, kinds and optionality and the declared literal default values. '
  'In particular a parameter is reported as passable by keyword exactly when the declaration allows it. A member declared only in a base class which does not implement it at runtime may be reported by the declaration or by introspection.',
  ['inputs', 'configurations'], 'all ~8,000 functions and methods of the standard library whose runtime object is what the declaration denotes',
  'Tests check that a signature object is returned for a sample of stdlib callables; its content is checked for none.',
  [S, ST, 'paradigm/_core/scoping.py', 'paradigm/_core/modules.py', 'paradigm/_core/index.py'], [('_from_callable', S), ('_parameters_from', S), ('_parse_stubs_state', ST)], ['signature_from_callable'],
  [('raw_ast_nodes', 'declarations of every stub object for the running version', ST), ('supported_stdlib_qualified_paths', 'runtime object path -> stub paths', 'paradigm/_core/modules.py')]),
P('C14', 'Standard library annotations denote the declared types',
  'For every such callable the annotation of every parameter and the return annotation reported is the runtime object denoting the type declared in typeshed (classes, aliases expanded, unions, literals, callables, type variables, Self for the receiver), specialised for the generic base it is inherited from.',
  ['inputs'], 'every parameter and return annotation of every standard library callable covered by C13',
  'No test looks at annotations of stdlib signatures.',
  [E, S, ST], [('evaluate_expression_node', E), ('evaluate_qualified_path', E), ('_SpecializeGeneric', ST)], ['signature_from_callable(...).parameters[i].annotation', '.returns']),
P('C15', 'Standard library classes report the declared constructor',
  'For every class of the importable standard library declared in typeshed, the reported signature consists of the overloads of the declared constructor (the nearest __init__ or __new__ along the declared MRO, or the synthesised one of a named tuple or a data class) without the implicit first parameter, inherited constructors included; only classes without any declared constructor are reported as taking no arguments.',
  ['inputs'], 'all ~3,000 classes of the importable standard library',
  'Tests check only that some signature comes back for a sample of classes.',
  [S, ST], [('_to_class_builder_qualified_path', S), ('_to_mro', S), ('visit_ClassDef named tuple constructor', ST)], ['signature_from_callable']),
P('C16', 'Every callable is handled or cleanly rejected',
  'For every object `signature_from_callable` either returns a signature that is internally valid (printable, hashable-or-cleanly-unhashable, consistent with its own expects/all_set/bind) or raises TypeError or ValueError; no other exception type escapes (unless raised by hooks of the object itself or by runtime introspection of it), and the result of repeating the call is equal (up to annotations which Python compares by identity).',
  ['inputs'], 'every object reachable from the importable standard library modules (18,000+), user-defined callables and non-callable objects',
  'Tests enumerate stdlib callables partially and skip what is unsupported.',
  [S], [('from_callable dispatch and fallbacks', S)], ['signature_from_callable']),
P('C17', 'Results do not depend on what was queried or imported before',
  'The signature reported for a callable is the same whatever other callables were queried before it, in whatever order, however often, whichever standard library modules happen to be imported, and whether earlier queries failed (were rejected, exhausted the stack or were interrupted in some call), as long as the queried object is the same.',
  ['histories'], 'every sequence of queries and imports over the standard library and user callables',
  'Tests query in a fixed order and never compare the same query across histories; evaluation keeps process-wide caches of evaluated objects and placeholders.',
  [E, S], [('objects_cache / modules_cache / cache of assignments', E), ('_value_has_qualified_path', S)], ['signature_from_callable in fresh processes'],
  [('objects_cache', 'weak cache of objects created from stubs', E), ('cache', 'assignment results and recursion placeholders', E)]),
P('C18', 'The compiled knowledge is deterministic and cache-transparent',
  'The signatures reported are a function of the Python, mypy and library versions only: they do not depend on hash randomisation, directory listing order, on whether the caches were just built or loaded from disk, or on the process being a child of another one. '
  'Rebuilding the caches in new interpreters produces identical cache contents.',
  ['configurations', 'histories'], 'every PYTHONHASHSEED, file system order, cold/warm start and process role',
  'Tests run in one process with whatever cache is there.',
  [ST, 'paradigm/_core/modules.py', 'paradigm/_core/caching.py', 'paradigm/_core/sources.py'], [('sorted traversal / save / load', ST), ('caching.save, caching.load', 'paradigm/_core/caching.py')], ['cache files', 'signature_from_callable in fresh processes']),
P('C19', 'Damaged, stale or unwritable caches never change or break results',
  'Whatever state the on-disk caches are in - absent, truncated at any point as after a crash or with no space left, corrupted so that they can not be loaded, written by another version of the library, lacking fields, partially present, not writable, or being written by other processes at the same time - importing the library succeeds and reports the same signatures as with intact caches, and where the location is writable the caches are repaired.',
  ['crash_points', 'fault_sequences'], 'every truncation point / corruption of either cache file, any subset of files, any recorded version, failing writes',
  'Tests never touch the caches.',
  ['paradigm/_core/caching.py', ST, 'paradigm/_core/modules.py'], [('load guarded by exception and version check', ST), ('save guarded by warning', 'paradigm/_core/caching.py')], ['import paradigm in fresh processes over scratch copies']),
P('C20', 'Declarations in any stub tree are read as the type checker reads them',
  'For any stub tree in the dialect of typeshed (version and platform conditions, imports and re-exports, star imports, aliases, overloads, nested classes, generic bases and their specialisation, named tuples, conditional definitions) and any matching runtime modules, the parameters reported for the functions, methods and classes are those an independent reading of the stubs by the type checker finds. (The dialect: what the type checker accepts; Protocol, Any, overload and Type come from typing; star imports bring no clashing names; generic bases are specialised, by plain names of type variables.)',
  ['programs', 'configurations'], 'every generated stub package in the explored grammar combined with the running version and platform',
  'Tests only ever see the one typeshed that comes with the installed mypy.',
  [ST, 'paradigm/_core/scoping.py', 'paradigm/_core/sources.py', S], [('_StateParser', ST), ('resolve_object_path', 'paradigm/_core/scoping.py')], ['signature_from_callable']),
P('C21', 'Concurrent queries are as good as sequential ones',
  'When several threads query signatures at the same time, in any interleaving, each query gives the same signature (or the same kind of rejection) as when it is made alone.',
  ['schedules'], 'every interleaving of queries over standard library callables in a fresh process',
  'Tests are single-threaded.',
  [E], [('process-wide evaluation caches', E)], ['signature_from_callable from threads']),
P('C22', 'Callables unknown to typeshed fall back to runtime introspection',
  'A builtin or standard library callable that typeshed does not describe, and any third-party callable, gets the signature runtime introspection reports (names, kinds, defaults, annotations, Any where unannotated; Self for classes), and ValueError exactly when introspection itself has none.',
  ['inputs'], 'every standard library callable without declaration and every third-party callable',
  'Tests have a few user-defined callables.',
  [S], [('_from_raw_signature', S), ('_parameter_from_raw', S)], ['signature_from_callable', 'inspect.signature']),
]
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
