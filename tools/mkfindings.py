"""Writes known_findings.json: records of repairs and findings."""
import json
from pathlib import Path

FIXED = [
 ('C01','fb48d9d','expects/all_set accepted arguments giving a parameter multiple values: f(a) with (1, a=2)'),
 ('C02','8ba27ee','bind of f(a, /, **kw) with (1, a=2) raised TypeError although it is expected'),
 ('C02','b3466bf','bind(b=2) of f(b=1) kept 1 as the default instead of the bound value'),
 ('C01','438ef3e','expects/all_set/bind raised TypeError for keyword arguments named "self"'),
 ('C05','26cf14c','equality of annotations was asymmetric (list vs typing.List, unions, literals) and confused specialised with unspecialised generics'),
 ('C05','e0e1a90','hashes of equal parameters and signatures differed'),
 ('C07','b1954ac','reprs of built-in generics, PEP 604 unions and parameter specifications did not evaluate back'),
 ('C09','a676152','user-defined functions and classes named like built-ins got signatures of the built-ins'),
 ('C11','49805a2','bound methods were looked up by their own names, e.g. of aliases'),
 ('C11','8b5c836','built-in methods were bound to classes instead of their receivers'),
 ('C11','c378b07','first parameter of static methods was replaced by the receiver'),
 ('C15','ef16bf5','constructors of standard library named tuples were not found'),
 ('C13','01ea220','built-in static methods (str.maketrans) were not found'),
 ('C15','76917d9','inherited constructors of standard library classes were reported as ()'),
 ('C14','a0d7cb6','specialisation of generic bases modified them for all other specialisations'),
 ('C18','d58e27c','contents of the caches depended on hash randomisation'),
 ('C13','7b1f549','every parameter of standard library callables without defaults was reported as positional-only'),
 ('C05','0195399','annotations list[None] and typing.List[None] were not equal'),
 ('C09','27f5975','user-defined functions and classes with qualified paths of standard library objects (of not imported or not indexed modules, "__specializations") got signatures of these objects'),
 ('C11','73f805f','methods of None, of modules and inherited built-in class methods (D.fromkeys of dict subclass D) and methods of metaclasses (int.mro) were not located'),
 ('C13','84ab3e6','standard library objects shared by several places got declarations of other objects: socket.socket.close got the one of _socket.close(fd), enum.Flag.__and__ the one of int.__and__'),
 ('C16','c9ebbf1','user objects put into standard library modules under names of references or submodules (os.path.f, re.A.f) raised RecursionError or AssertionError'),
 ('C13','7a6564b','inherited members and constructors were looked up depth-first instead of along the MRO (ipaddress.IPv4Address.__init__, http.client.RemoteDisconnected)'),
 ('C15','baec601','classes also available through class attributes (tarfile.TarFile.tarinfo, unittest.TestCase.failureException) were rejected or reported by introspection'),
 ('C22','baec601','classes declared as variables (unittest.util._Mismatch) were reported as ()'),
 ('C14','b3e77a6','methods hid names from outer scopes in annotations (list of multiprocessing.managers.SyncManager)'),
 ('C13','ecf8eba','functions using classes which can not be subclassed raised TypeError (ctypes.CFUNCTYPE, ctypes.CDLL.__getattr__)'),
 ('C13','5edefc6','built-in class methods (__class_getitem__ of ContextVar, asyncio.Future) were not located'),
 ('C14','a563638','same names of different modules were confused in specialisations of generics (multiprocessing.queues.JoinableQueue, array.array.__iter__)'),
 ('C13','d1fb975','class and static methods of re-exported classes were not located (importlib.machinery.PathFinder.find_distributions, BuiltinImporter.find_spec)'),
 ('C17','10193df','what is reported depended on which modules had been imported (_ssl.SSLError, _datetime.date, _locale.localeconv)'),
 ('C17','c45fa07','placeholders and incomplete classes left by a failed query (e.g. with RecursionError) were reported by later ones (subprocess.run, builtins.open, os.stat)'),
 ('C21','2a5209c','threads saw placeholders of each other (fcntl.lockf, posixpath.join, email.mime.application.MIMEApplication)'),
 ('C18','737b071','processes created with multiprocessing worked without any knowledge when the library was first imported there'),
 ('C16','ce5cfd2','callables with absent or non-string __module__/__qualname__ and mocks of functions raised AssertionError or AttributeError'),
 ('C20','72c3e12','classes nested in ones which exist in stubs only raised KeyError'),
 ('C20','ed66cd2','bases like list[Callable[[], int]] raised TypeError on import of the library'),
 ('C20','f2ea1ed','constructors of named tuples nested in classes raised ObjectNotFound'),
 ('C20','f1be2cb','dotted bases like collections.abc.Sequence[int] raised ObjectNotFound on import'),
 ('C20','b5323cf','classes nested in specialised generics raised KeyError on import'),
 ('C20','ed99658','names from star imports were preferred to the ones imported explicitly'),
 ('C06','f8c068a','signature of bz2.open was not picklable after the one of gzip.open had been queried'),
 ('C07','f8c068a','repr of the signature of bz2.open denoted another class after gzip.open had been queried'),
 ('C20','9cce5de','bases like Base[Literal[-1]] raised TypeError on import'),
 ('C20','08c0db7','bases inherited from other classes (Pair.State where State belongs to a superclass of Pair) raised ObjectNotFound on import'),
 ('C20','4cd50bd','None was reported for classes which exist in stubs only and are derived from list[...]'),
 ('C20','f771959','superclasses were not linearised the way Python does (diamonds, generics)'),
 ('C20','1fc503f','names assigned in bodies of classes (set = Box) hid the ones of modules, methods assigned there (fatal = critical of logging.Logger) were not found'),
 ('C20','c5019f1','type parameters of class _Mixin(list[_T], Generic[_S, _T]) were taken in the order of all bases'),
]
FINDINGS = json.loads(
        (Path(__file__).resolve().parent / 'findings.json').read_text()
)

path = Path(__file__).resolve().parent.parent / 'known_findings.json'
path.write_text(json.dumps({
    'fixed': [f'fixed: property={p} {c} {w}' for p, c, w in FIXED],
    'findings': FINDINGS,
}, indent=1) + '\n')
