"""Callables of the standard library and of the user for sampled checks."""
import functools
import importlib

STDLIB = """
builtins:abs builtins:print builtins:sorted builtins:max builtins:dict
builtins:dict.fromkeys builtins:dict.get builtins:dict.pop builtins:int
builtins:str builtins:str.join builtins:str.maketrans builtins:bytes.fromhex
builtins:list.sort builtins:zip builtins:map builtins:open builtins:iter
builtins:range builtins:slice builtins:type builtins:object builtins:sum
builtins:getattr builtins:pow builtins:float.hex builtins:int.from_bytes
builtins:tuple builtins:set.union builtins:property builtins:super
builtins:enumerate builtins:reversed builtins:isinstance builtins:next
os:makedirs os:walk os:getenv os:listdir os:stat os.path:join os.path:relpath
functools:reduce functools:partial functools:wraps functools:lru_cache
itertools:chain itertools:product itertools:accumulate itertools:groupby
collections:OrderedDict collections:OrderedDict.fromkeys collections:Counter
collections:deque collections:deque.rotate collections:defaultdict
collections:ChainMap collections:ChainMap.get collections:namedtuple
re:compile re:sub re:split json:dumps json:loads json:JSONEncoder
subprocess:run subprocess:Popen subprocess:check_output socket:socket
socket:create_connection threading:Thread threading:Lock threading:Timer
asyncio:gather asyncio:wait_for asyncio:Queue asyncio:Queue.get
datetime:datetime datetime:datetime.now datetime:date.fromisoformat
datetime:timedelta decimal:Decimal fractions:Fraction random:choice
random:Random.shuffle math:gcd math:isclose statistics:mean
logging:getLogger logging:Logger.info logging:basicConfig
pathlib:Path pathlib:Path.open pathlib:PurePath.joinpath
contextlib:contextmanager contextlib:ExitStack contextlib:suppress
dataclasses:field dataclasses:dataclass enum:Enum enum:auto
typing:cast typing:NewType typing:get_type_hints inspect:signature
inspect:Signature.bind ast:parse ast:NodeVisitor.visit copy:deepcopy
pickle:dumps pickle:Pickler shutil:copytree tempfile:NamedTemporaryFile
tempfile:TemporaryDirectory urllib.parse:urlparse urllib.request:urlopen
http.client:HTTPConnection http.client:HTTPConnection.request
email.message:Message email.parser:Parser csv:reader csv:DictWriter
configparser:ConfigParser configparser:ConfigParser.get argparse:ArgumentParser
argparse:ArgumentParser.add_argument string:Template textwrap:wrap
unittest:TestCase unittest:TestCase.assertRaises unittest.mock:patch
concurrent.futures:ThreadPoolExecutor concurrent.futures:Executor.submit
queue:Queue queue:Queue.put sqlite3:connect sqlite3:Connection.execute
struct:pack struct:Struct hashlib:sha256 hmac:new base64:b64encode
zipfile:ZipFile zipfile:ZipFile.open tarfile:open gzip:open bz2:open
io:BytesIO io:StringIO io:TextIOWrapper io:BytesIO.read heapq:merge
heapq:nlargest bisect:bisect_left operator:itemgetter operator:add
weakref:ref weakref:WeakValueDictionary weakref:finalize types:SimpleNamespace
types:FunctionType xml.etree.ElementTree:parse xml.etree.ElementTree:Element
selectors:DefaultSelector signal:signal time:sleep time:strftime uuid:UUID
uuid:uuid4 traceback:format_exception warnings:warn difflib:SequenceMatcher
difflib:unified_diff fnmatch:filter glob:glob locale:setlocale
multiprocessing:Process multiprocessing:Pool multiprocessing.pool:Pool.map
array:array cmath:sqrt calendar:Calendar codecs:open contextvars:ContextVar
""".split()


def resolve(path):
    module_name, _, object_path = path.partition(':')
    value = importlib.import_module(module_name)
    for part in object_path.split('.'):
        value = getattr(value, part)
    return value


def user_function(a, b: int = 1, *args: str, c: 'int' = 2, **kwargs) -> None:
    pass


def partials():
    return {
        'partial print': functools.partial(print, 1, sep='x'),
        'partial user': functools.partial(user_function, 1, c=3),
        'partial class': functools.partial(int, base=2),
        'bound append': [].append,
        'bound dict.get': {}.get,
    }
