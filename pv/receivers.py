"""Objects of built-in and standard library types with methods."""
import array
import ast
import asyncio
import argparse
import calendar
import collections
import configparser
import contextlib
import contextvars
import csv
import ctypes
import datetime
import decimal
import difflib
import email.message
import enum
import fractions
import functools
import gettext
import hashlib
import hmac
import http.cookies
import inspect
import io
import ipaddress
import itertools
import json
import logging
import mailbox
import mmap
import operator
import pathlib
import pickle
import queue
import random
import re
import selectors
import shlex
import sqlite3
import string
import struct
import sys
import textwrap
import threading
import traceback
import types
import unittest
import uuid
import weakref
import zipfile
import zlib
from concurrent import futures
from xml.etree import ElementTree


class Color(enum.Enum):
    RED = 1


class Flag(enum.IntFlag):
    A = 1


def _generator():
    yield


async def _async_generator():
    yield


def _coroutine():
    async def function():
        pass

    result = function()
    return result


def create():
    """Returns dictionary from name to object."""
    coroutine = _coroutine()
    result = {
        'int': 1, 'bool': True, 'float': 1.5, 'complex': 1j, 'str': 'a',
        'bytes': b'a', 'bytearray': bytearray(b'a'), 'list': [1],
        'tuple': (1,), 'dict': {1: 2}, 'set': {1}, 'frozenset': frozenset(),
        'None': None, 'Ellipsis': ..., 'NotImplemented': NotImplemented,
        'range': range(3), 'slice': slice(1), 'memoryview': memoryview(b'a'),
        'object': object(), 'type': int, 'metaclass': type,
        'enumerate': enumerate(()), 'zip': zip(), 'map': map(int, ()),
        'filter': filter(None, ()), 'reversed': reversed([1]),
        'list iterator': iter([1]), 'dict keys': {}.keys(),
        'dict values': {}.values(), 'dict items': {}.items(),
        'dict iterator': iter({}), 'str iterator': iter('a'),
        'callable iterator': iter(int, 1), 'generator': _generator(),
        'async generator': _async_generator(), 'coroutine': coroutine,
        'function': create, 'builtin function': len,
        'method descriptor': list.append, 'wrapper descriptor': int.__add__,
        'method wrapper': (1).__add__, 'bound method': [].append,
        'class method descriptor': dict.__dict__['fromkeys'],
        'getset descriptor': type.__dict__['__doc__'],
        'member descriptor': slice.__dict__['start'],
        'property': property(), 'classmethod': classmethod(create),
        'staticmethod': staticmethod(create), 'super': super(type, int),
        'module': sys, 'code': create.__code__, 'frame': sys._getframe(),
        'cell': types.CellType(1), 'mapping proxy': int.__dict__,
        'namespace': types.SimpleNamespace(), 'method': types.MethodType(
                create, 1
        ), 'alias': list[int], 'union': int | str,
        'exception': ValueError(1), 'os error': OSError(1, 'a'),
        'stop iteration': StopIteration(1),
        'exception group': ExceptionGroup('a', [ValueError()]),
        'deque': collections.deque(), 'OrderedDict': collections.OrderedDict(),
        'defaultdict': collections.defaultdict(list),
        'Counter': collections.Counter(), 'ChainMap': collections.ChainMap(),
        'UserDict': collections.UserDict(), 'UserList': collections.UserList(),
        'UserString': collections.UserString('a'),
        'namedtuple': collections.namedtuple('P', 'x y')(1, 2),
        'array': array.array('i'), 'Lock': threading.Lock(),
        'RLock': threading.RLock(), 'Thread': threading.Thread(),
        'Event': threading.Event(), 'Condition': threading.Condition(),
        'Semaphore': threading.Semaphore(), 'local': threading.local(),
        'BytesIO': io.BytesIO(), 'StringIO': io.StringIO(),
        'BufferedReader': io.BufferedReader(io.BytesIO()),
        'TextIOWrapper': io.TextIOWrapper(io.BytesIO()),
        'Pattern': re.compile('a'), 'Match': re.match('a', 'a'),
        'date': datetime.date(2000, 1, 1),
        'datetime': datetime.datetime(2000, 1, 1),
        'time': datetime.time(1), 'timedelta': datetime.timedelta(1),
        'timezone': datetime.timezone.utc, 'Decimal': decimal.Decimal(1),
        'Context': decimal.Context(), 'Fraction': fractions.Fraction(1),
        'Random': random.Random(1), 'Struct': struct.Struct('i'),
        'hash': hashlib.sha256(), 'hmac': hmac.new(b'a', digestmod='md5'),
        'UUID': uuid.UUID(int=1), 'Path': pathlib.Path('a'),
        'PurePath': pathlib.PureWindowsPath('a'),
        'partial': functools.partial(int),
        'lru_cache': functools.lru_cache(create),
        'cached_property': functools.cached_property(create),
        'partialmethod': functools.partialmethod(create),
        'singledispatch': functools.singledispatch(create),
        'chain': itertools.chain(), 'product': itertools.product(),
        'count': itertools.count(), 'cycle': itertools.cycle(()),
        'groupby': itertools.groupby(()), 'tee': itertools.tee(())[0],
        'itemgetter': operator.itemgetter(1),
        'attrgetter': operator.attrgetter('a'),
        'methodcaller': operator.methodcaller('a'),
        'weakref': weakref.ref(create), 'WeakSet': weakref.WeakSet(),
        'WeakKeyDictionary': weakref.WeakKeyDictionary(),
        'WeakValueDictionary': weakref.WeakValueDictionary(),
        'finalize': weakref.finalize(create, int),
        'ContextVar': contextvars.ContextVar('a'),
        'Context variables': contextvars.copy_context(),
        'Queue': queue.Queue(), 'SimpleQueue': queue.SimpleQueue(),
        'PriorityQueue': queue.PriorityQueue(),
        'asyncio Queue': asyncio.Queue(), 'asyncio Lock': asyncio.Lock(),
        'Executor': futures.ThreadPoolExecutor(1),
        'Future': futures.Future(), 'Logger': logging.Logger('a'),
        'Handler': logging.NullHandler(),
        'Formatter': logging.Formatter(), 'LogRecord': logging.makeLogRecord(
                {}
        ),
        'ArgumentParser': argparse.ArgumentParser(),
        'ConfigParser': configparser.ConfigParser(),
        'csv writer': csv.writer(io.StringIO()), 'csv reader': csv.reader(()),
        'DictReader': csv.DictReader(()), 'Sniffer': csv.Sniffer(),
        'JSONEncoder': json.JSONEncoder(), 'JSONDecoder': json.JSONDecoder(),
        'Pickler': pickle.Pickler(io.BytesIO()),
        'Unpickler': pickle.Unpickler(io.BytesIO()),
        'Template': string.Template('a'), 'StringFormatter':
            string.Formatter(),
        'TextWrapper': textwrap.TextWrapper(),
        'SequenceMatcher': difflib.SequenceMatcher(),
        'Differ': difflib.Differ(), 'ExitStack': contextlib.ExitStack(),
        'suppress': contextlib.suppress(),
        'Message': email.message.EmailMessage(),
        'SimpleCookie': http.cookies.SimpleCookie(),
        'IPv4Address': ipaddress.IPv4Address(1),
        'IPv6Network': ipaddress.IPv6Network(1),
        'Signature': inspect.signature(create),
        'Parameter': inspect.Parameter('a', inspect.Parameter.KEYWORD_ONLY),
        'Calendar': calendar.TextCalendar(), 'shlex': shlex.shlex(),
        'Connection': sqlite3.connect(':memory:'),
        'Cursor': sqlite3.connect(':memory:').cursor(),
        'TestCase': unittest.TestCase(), 'TestSuite': unittest.TestSuite(),
        'TestResult': unittest.TestResult(),
        'Element': ElementTree.Element('a'),
        'ElementTree': ElementTree.ElementTree(),
        'XMLParser': ElementTree.XMLParser(),
        'NodeVisitor': ast.NodeVisitor(), 'AST': ast.parse('1'),
        'Selector': selectors.SelectSelector(),
        'compressobj': zlib.compressobj(), 'ZipInfo': zipfile.ZipInfo(),
        'ZipFile': zipfile.ZipFile(io.BytesIO(), 'w'),
        'mmap': mmap.mmap(-1, 16), 'c_int': ctypes.c_int(1),
        'ctypes array': (ctypes.c_int * 2)(), 'Enum': Color.RED,
        'enum class': Color, 'Flag': Flag.A,
        'TracebackException': traceback.TracebackException(
                ValueError, ValueError(), None
        ),
        'Maildir message': mailbox.MaildirMessage(),
        'Translations': gettext.NullTranslations(),
        'version info': sys.version_info, 'flags': sys.flags,
        'simple manager': contextlib.nullcontext(),
    }
    coroutine.close()
    return result
