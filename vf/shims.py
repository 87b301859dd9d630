"""Stand-ins for builtins and standard-library modules whose C implementation cannot take symbolic values.

Each falls through to the real thing when no symbolic value is involved.
"""
import builtins
import collections as _collections
import copy as _copy
import fnmatch as _fnmatch
import functools as _functools
import io as _io
import json as _json
import math as _math
import os as _os
import pathlib as _pathlib
import re as _re
import struct as _struct
import types

import z3

from . import core, symre
from .core import (SymBool, SymBytes, SymCounter, SymDefaultDict, SymDict, SymInt, SymReal, SymSet, SymStr,
                   Unsupported, mkint, mkstr, sym_ite)


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._inst)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._inst)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class vint(int, metaclass=_Meta):
    _inst = (int, SymInt)
    _real = int

    @staticmethod
    def _make(*a, **k):
        if a:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymBool):
                return SymInt(core._e(x))
            if isinstance(x, SymReal):
                return x.trunc()
            if isinstance(x, SymStr):
                x = x.concretise()
                a = (x,) + a[1:]
            if isinstance(x, SymBytes):
                raise Unsupported('int() of symbolic bytes')
        return core.ENGINE.untoken(int(*a, **k))

    @staticmethod
    def from_bytes(data, byteorder='big', *, signed=False):
        if isinstance(data, SymBytes) or not isinstance(data, (bytes, bytearray, memoryview)):
            items = list(data)
            if any(isinstance(i, SymInt) for i in items):
                return combine(items, byteorder == 'little', signed)
            data = bytes(items)
        return int.from_bytes(data, byteorder, signed=signed)


def combine(items, little, signed):
    """The integer formed by bytes (some symbolic)."""
    n = len(items)
    le = items if little else items[::-1]
    s0 = le[0].src if isinstance(le[0], SymInt) else None
    if s0 is not None and s0[1] == 0 and s0[2] == n and all(
            isinstance(b, SymInt) and b.src is not None and b.src[0] is s0[0] and b.src[1] == i and b.src[2] == n
            for i, b in enumerate(le)):
        v = SymInt(s0[0], 0, 8 * n)
    else:
        e = None
        for i, b in enumerate(le):
            t = core._e(b)
            if i:
                t = t * (1 << (8 * i))
            e = t if e is None else e + t
        v = SymInt(z3.simplify(e), 0, 8 * n)
    if signed:
        lim = 1 << (8 * n - 1)
        return SymInt(z3.If(v.e >= lim, v.e - (1 << (8 * n)), v.e))
    return v


class vstr(str, metaclass=_Meta):
    _inst = (str, SymStr)
    _real = str

    @staticmethod
    def _make(*a, **k):
        if a:
            x = a[0]
            if isinstance(x, SymStr):
                return x
            if isinstance(x, SymBytes) and len(a) > 1:
                return x.decode(*a[1:])
        return str(*a, **k)


class vfloat(float, metaclass=_Meta):
    _inst = (float, SymReal)
    _real = float

    @staticmethod
    def _make(*a):
        if a and isinstance(a[0], (SymInt, SymReal)):
            return SymReal(core._r(a[0]))
        return float(*a)


class vbytes(bytes, metaclass=_Meta):
    _inst = (bytes, SymBytes)
    _real = bytes

    @staticmethod
    def _make(*a, **k):
        if a and isinstance(a[0], SymBytes):
            return core.mkbytes(a[0].b) if isinstance(a[0], (SymView, SymBytearray)) else a[0]
        if a and isinstance(a[0], (list, tuple)) and any(isinstance(i, SymInt) for i in a[0]):
            return SymBytes(list(a[0]))
        return bytes(*a, **k)


class SymView(SymBytes):
    """memoryview over bytes some of which are symbolic."""

    __slots__ = ()
    readonly, itemsize, format, ndim, contiguous = True, 1, 'B', 1, True

    def __getitem__(self, k):
        r = SymBytes.__getitem__(self, k)
        return r if not isinstance(k, slice) else memoryview(r) if isinstance(r, bytes) else SymView(r.b)

    def tobytes(self, *a):
        return SymBytes(self.b)

    def tolist(self):
        return list(self.b)

    def toreadonly(self):
        return self

    def cast(self, fmt, *a):
        if fmt not in ('B', 'c') or a:
            raise core.Unsupported('memoryview.cast of symbolic bytes')
        return self

    nbytes = property(lambda self: len(self.b))
    obj = property(lambda self: SymBytes(self.b))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __getattribute__(self, name):
        if name in ('find', 'index', 'startswith', 'split', 'partition', 'decode'):
            raise AttributeError(f"'memoryview' object has no attribute '{name}'")
        return SymBytes.__getattribute__(self, name)


class vmemoryview(metaclass=_Meta):
    _inst = (memoryview, SymView)
    _real = memoryview
    _make = staticmethod(lambda x: SymView(x.b) if isinstance(x, SymBytes) else memoryview(x))


class SymBytearray(SymBytes):
    """bytearray some of whose elements may be symbolic."""

    __slots__ = ()

    def append(self, x):
        if not 0 <= x < 256:
            raise ValueError('byte must be in range(0, 256)')
        self.b.append(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, x):
        self.b.insert(i, x)

    def pop(self, i=-1):
        return self.b.pop(i)

    def clear(self):
        self.b.clear()

    def reverse(self):
        self.b.reverse()

    def copy(self):
        return SymBytearray(self.b)

    def __setitem__(self, k, x):
        self.b[k] = list(x) if isinstance(k, slice) else x

    def __delitem__(self, k):
        del self.b[k]

    def decode(self, *a, **k):
        return core.mkbytes(self.b).decode(*a, **k)

    def __deepcopy__(self, memo):
        return SymBytearray(self.b)

    __copy__ = copy


class vbytearray(metaclass=_Meta):
    _inst = (bytearray, SymBytearray)
    _real = bytearray

    @staticmethod
    def _make(x=b'', *a, **k):
        if a or k or not isinstance(x, (bytes, bytearray, memoryview, SymBytes, list, tuple)):
            return SymBytearray(bytearray(x, *a, **k))
        return SymBytearray(x)


class vdict(dict, metaclass=_Meta):
    _inst = dict
    _real = dict
    _make = staticmethod(lambda *a, **k: SymDict(*a, **k))
    fromkeys = SymDict.fromkeys


class vset(set, metaclass=_Meta):
    _inst = (set, SymSet)
    _real = set
    _make = staticmethod(lambda *a: SymSet(*a))


class vfrozenset(frozenset, metaclass=_Meta):
    _inst = (frozenset, SymSet)
    _real = frozenset
    _make = staticmethod(lambda *a: SymSet(*a))


def _minmax(is_min):
    real = min if is_min else max

    def f(*a, **k):
        if k.get('key') is not None:
            return real(*a, **k)
        if len(a) == 1:
            xs = list(a[0])
        else:
            xs = list(a)
        if not any(isinstance(x, (SymInt, SymReal)) for x in xs):
            return real(xs, **k)
        r = xs[0]
        for x in xs[1:]:
            r = sym_ite(x < r, x, r) if is_min else sym_ite(x > r, x, r)
        return r
    return f


def vhex(x):
    if isinstance(x, SymInt):
        return hex(core.ENGINE.token(x))
    return hex(x)


def vsum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class VFile:
    """A file with symbolic content."""

    def __init__(self, content, binary):
        self.content = content
        self.binary = binary
        self.p = 0
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def seek(self, off, whence=0):
        if isinstance(off, SymInt):
            off = off.__index__()
        self.p = off if whence == 0 else (self.p + off if whence == 1 else len(self.content) + off)
        if self.p < 0:
            raise OSError(22, 'Invalid argument')
        return self.p

    def tell(self):
        return self.p

    def read(self, n=-1):
        if isinstance(n, SymInt):
            n = n.__index__()
        end = len(self.content) if n is None or n < 0 else self.p + n
        c = self.content[self.p:end]
        self.p = max(self.p, min(end, len(self.content)))
        if isinstance(c, list):
            return core.mkbytes(c) if self.binary else mkstr(c)
        return c

    def readline(self):
        if self.binary:
            raise Unsupported('readline')
        end = next((i + 1 for i in range(self.p, len(self.content)) if isinstance(self.content[i], str) and self.content[i] == '\n'),
                   len(self.content))
        return self.read(end - self.p)

    def __iter__(self):
        if self.binary:
            raise Unsupported('iterating a binary file')
        return iter(core.promote(self.read()).splitlines(True))

    def readlines(self):
        return list(self)

    def fileno(self):
        raise Unsupported('fileno of a symbolic file')


def _vfs(fn):
    if isinstance(fn, SymStr):
        fn = fn.concretise()
    if isinstance(fn, (str, _os.PathLike)):
        return core.ENGINE.vfs.get(_os.path.realpath(fn))
    return None


def vopen(fn, mode='r', *a, **k):
    c = _vfs(fn)
    if c is not None:
        if 'w' in mode or 'a' in mode or '+' in mode:
            raise Unsupported('writing a symbolic file')
        newline = k.get('newline', a[3] if len(a) > 3 else None)
        if 'b' not in mode and newline is None and any(isinstance(x, str) and x == '\r' for x in c):
            t = []
            for i, x in enumerate(c):
                if isinstance(x, str) and x == '\r':
                    if i + 1 < len(c) and isinstance(c[i + 1], str) and c[i + 1] == '\n':
                        continue
                    x = '\n'
                t.append(x)
            c = t
        return VFile(c, 'b' in mode)
    if isinstance(fn, SymStr):
        fn = fn.concretise()
    return open(fn, mode, *a, **k)


def veval(s, *a, **k):
    if isinstance(s, SymStr):
        s = s.concretise()
    if not isinstance(s, (str, bytes)):
        return eval(s, *a, **k)
    try:
        return core.ENGINE.untoken(int(s, 0))
    except ValueError:
        return core.ENGINE.untoken(eval(s, *(a or ({},)), **k))


def vround(x, *n):
    return round(x, *n)


def vsorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


BUILTINS = {
    'int': vint, 'str': vstr, 'float': vfloat, 'bytes': vbytes, 'memoryview': vmemoryview, 'bytearray': vbytearray, 'dict': vdict, 'set': vset, 'frozenset': vfrozenset,
    'min': _minmax(True), 'max': _minmax(False), 'hex': vhex, 'sum': vsum, 'open': vopen, 'eval': veval,
}


# ------------------------------------------------------------------ modules
class Proxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)

    def __setattr__(self, n, v):
        self.__dict__[n] = v


# struct
_CODES = {'x': (1, None), 'c': (1, 'c'), 'b': (1, True), 'B': (1, False), '?': (1, False), 'h': (2, True),
          'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True),
          'Q': (8, False), 's': (1, 's')}


def _unpack(fmt, items):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt or fmt[0] not in '<>=!':
        raise Unsupported('native struct format')
    little = fmt[0] in '<='
    if _struct.calcsize(fmt) != len(items):
        raise _struct.error(f'unpack requires a buffer of {_struct.calcsize(fmt)} bytes')
    out, p = [], 0
    for cnt, code in _re.findall(r'(\d*)([a-zA-Z?])', fmt[1:]):
        n = int(cnt) if cnt else 1
        size, kind = _CODES[code]
        if kind == 's':
            out.append(core.mkbytes(items[p:p + n]))
            p += n
            continue
        for _ in range(n):
            chunk = items[p:p + size]
            p += size
            if kind is None:
                continue
            if kind == 'c':
                out.append(core.mkbytes(chunk))
            elif any(isinstance(x, SymInt) for x in chunk):
                out.append(combine(chunk, little, kind))
            else:
                out.append(int.from_bytes(bytes(chunk), 'little' if little else 'big', signed=kind))
    return tuple(out)


def s_unpack(fmt, data):
    if isinstance(data, SymBytes):
        return _unpack(fmt, list(data))
    return _struct.unpack(fmt, data)


def s_unpack_from(fmt, data, offset=0):
    if isinstance(offset, SymInt):
        offset = offset.__index__()
    if isinstance(data, SymBytes):
        n = _struct.calcsize(fmt)
        if offset < 0:
            offset += len(data)
        if offset < 0 or offset + n > len(data):
            raise _struct.error(f'unpack_from requires a buffer of at least {n + offset} bytes')
        return _unpack(fmt, list(data)[offset:offset + n])
    return _struct.unpack_from(fmt, data, offset)


def s_iter_unpack(fmt, data):
    n = _struct.calcsize(fmt)
    if isinstance(data, SymBytes):
        items = list(data)
        if len(items) % n:
            raise _struct.error(f'iterative unpacking requires a buffer of a multiple of {n} bytes')
        return iter([_unpack(fmt, items[i:i + n]) for i in range(0, len(items), n)])
    return _struct.iter_unpack(fmt, data)


class VStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, data):
        return s_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return s_unpack_from(self.format, data, offset)

    def iter_unpack(self, data):
        return s_iter_unpack(self.format, data)


m_struct = Proxy(_struct, unpack=s_unpack, unpack_from=s_unpack_from, iter_unpack=s_iter_unpack, Struct=VStruct)


# json
def plain(x):
    """Copy of a data structure in which symbolic integers are their tokens."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return core.ENGINE.token(x)
    if isinstance(x, SymReal):
        raise Unsupported('symbolic float in JSON')
    if isinstance(x, SymStr):
        return x.concretise()
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            k = plain(k)
            if k in out:
                # JSON text would repeat the key; keep the information for the reader
                raise Unsupported('duplicate JSON key')
            out[k] = plain(v)
        return out
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def j_dumps(obj, *a, **k):
    return _json.dumps(plain(obj), *a, **k)


def j_dump(obj, fp, *a, **k):
    return _json.dump(plain(obj), fp, *a, **k)


def wrap(x):
    """Plain data to the containers that accept symbolic keys."""
    if type(x) is dict:
        return SymDict((k, wrap(v)) for k, v in x.items())
    if type(x) is list:
        return [wrap(v) for v in x]
    if type(x) is int:
        return core.ENGINE.untoken(x)
    return x


def j_loads(s, *a, **k):
    if isinstance(s, SymStr):
        raise Unsupported('JSON text with symbolic characters')
    return wrap(_json.loads(s, *a, **k))


def j_load(fp, *a, **k):
    return j_loads(fp.read(), *a, **k)


m_json = Proxy(_json, dumps=j_dumps, dump=j_dump, loads=j_loads, load=j_load)


# yaml: memoised, it is slow
_YAML = {}


def y_safe_load(f):
    import yaml
    text = f if isinstance(f, (str, bytes)) else f.read()
    if text not in _YAML:
        _YAML[text] = yaml.safe_load(text)
    return wrap(_copy.deepcopy(_YAML[text]))


class _Yaml(types.ModuleType):
    def __getattr__(self, n):
        import yaml
        return getattr(yaml, n)


m_yaml = _Yaml('yaml')
m_yaml.__dict__['safe_load'] = y_safe_load
m_yaml.__dict__['load'] = lambda f, *a, **k: y_safe_load(f)


# fnmatch over symbolic characters
def _fn_items(pat):
    """Pattern characters -> list of matchers, following fnmatch.translate; forks on undecided characters."""
    cs = core.chars_of(pat)
    i, n, out = 0, len(cs), []

    def at(j, ch):
        return bool(core.mkbool(core.ceq(cs[j], ch)))
    while i < n:
        if at(i, '*'):
            if not out or out[-1] != '*':
                out.append('*')
            i += 1
        elif at(i, '?'):
            out.append('?')
            i += 1
        elif at(i, '['):
            j = i + 1
            if j < n and at(j, '!'):
                j += 1
            if j < n and at(j, ']'):
                j += 1
            while j < n and not at(j, ']'):
                j += 1
            if j >= n:
                out.append(('c', cs[i]))
                i += 1
            else:
                body = cs[i + 1:j]
                neg = bool(body) and bool(core.mkbool(core.ceq(body[0], '!')))
                if neg:
                    body = body[1:]
                rng, k = [], 0
                while k < len(body):
                    if k + 2 < len(body) and bool(core.mkbool(core.ceq(body[k + 1], '-'))):
                        rng.append((body[k], body[k + 2]))
                        k += 3
                    else:
                        rng.append((body[k], body[k]))
                        k += 1
                out.append(('s', neg, rng))
                i = j + 1
        else:
            out.append(('c', cs[i]))
            i += 1
    return out


def _ce(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


def fn_cond(name, pat):
    cs = core.chars_of(name)
    items = _fn_items(pat)
    cur = [True] + [False] * len(cs)  # cur[i]: the items so far match cs[:i]

    def AND(a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def OR(a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)
    for it in items:
        nxt = [False] * len(cur)
        if it == '*':
            acc = False
            for i in range(len(cur)):
                acc = OR(acc, cur[i])
                nxt[i] = acc
        else:
            for i in range(len(cs)):
                if it == '?':
                    m = True
                elif it[0] == 'c':
                    m = core.ceq(it[1], cs[i])
                    m = m if isinstance(m, bool) else m.e
                else:
                    m = False
                    for lo, hi in it[2]:
                        c, l, h = _ce(cs[i]), _ce(lo), _ce(hi)
                        t = z3.simplify(z3.And(l <= c, c <= h))
                        m = OR(m, True if z3.is_true(t) else (False if z3.is_false(t) else t))
                    if it[1]:
                        m = (not m) if isinstance(m, bool) else z3.Not(m)
                nxt[i + 1] = AND(cur[i], m)
        cur = nxt
    return cur[-1]


def f_fnmatchcase(name, pat):
    if isinstance(name, SymStr) or isinstance(pat, SymStr):
        return core.mkbool(fn_cond(name, pat))
    return _fnmatch.fnmatchcase(name, pat)


def f_fnmatch(name, pat):
    return f_fnmatchcase(name, pat)  # normcase is the identity on POSIX


def f_filter(names, pat):
    return [n for n in names if f_fnmatch(n, pat)]


m_fnmatch = Proxy(_fnmatch, fnmatch=f_fnmatch, fnmatchcase=f_fnmatchcase, filter=f_filter)


# os.path
def _p(fn):
    real = getattr(_os.path, fn)

    def f(*a, **k):
        if any(isinstance(x, SymStr) for x in a):
            return SYM_PATH[fn](*a, **k) if fn in SYM_PATH else real(
                *[x.concretise() if isinstance(x, SymStr) else x for x in a], **k)
        return real(*a, **k)
    return f


def _basename(p):
    return p[p.rfind('/') + 1:]


def _dirname(p):
    h = p[:p.rfind('/') + 1]
    if h and not (h == '/' * len(h)):
        h = core.promote(h).rstrip('/')
    return h


def _split(p):
    return _dirname(p), _basename(p)


def _splitext(p):
    s = p.rfind('/')
    d = p.rfind('.')
    if d > s:
        i = s + 1
        while i < d:
            if p[i] != '.':
                return p[:d], p[d:]
            i += 1
    return p, p[:0]


SYM_PATH = {'basename': _basename, 'dirname': _dirname, 'split': _split, 'splitext': _splitext}
m_path = Proxy(_os.path, **{n: _p(n) for n in ('basename', 'dirname', 'split', 'splitext', 'join', 'abspath', 'isfile',
                                               'exists', 'isdir', 'realpath', 'normpath', 'relpath', 'isabs')})
m_os = Proxy(_os, path=m_path)


# pathlib
class VPath(type(_pathlib.Path())):
    def open(self, mode='r', *a, **k):
        return vopen(str(self), mode, *a, **k)

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def read_text(self, *a, **k):
        with self.open('r', *a, **k) as f:
            return f.read()


def _vpath(*a, **k):
    return VPath(*[x.concretise() if isinstance(x, SymStr) else x for x in a], **k)


m_pathlib = Proxy(_pathlib, Path=VPath, PosixPath=VPath)

# collections
m_collections = Proxy(_collections, defaultdict=SymDefaultDict, OrderedDict=SymDict, Counter=SymCounter)


# functools: caches live as long as the path; calls with symbolic arguments are not cached
def _cacheable(x):
    if isinstance(x, (SymInt, SymStr, SymBytes)):
        return False
    if isinstance(x, (tuple, frozenset)):
        return all(_cacheable(y) for y in x)
    return True


def _cache_of(f, maxsize):
    def store():
        return core.ENGINE.caches.setdefault(id(f), {})

    @_functools.wraps(f)
    def g(*x, **y):
        if core.ENGINE is None or maxsize == 0 or not all(map(_cacheable, x)) or not all(map(_cacheable, y.values())):
            return f(*x, **y)
        d = store()
        k = (x, tuple(y.items()))
        if k in d:
            v = d[k] = d.pop(k)
            return v
        v = f(*x, **y)
        d[k] = v
        if maxsize is not None and len(d) > maxsize:
            del d[next(iter(d))]
        return v
    g.cache_clear = lambda: store().clear()
    g.cache_info = lambda: None
    return g


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cache_of(maxsize, 128)
    return lambda f: _cache_of(f, maxsize)


m_functools = Proxy(_functools, lru_cache=_lru_cache, cache=lambda f: _cache_of(f, None))

m_math = Proxy(_math, floor=lambda x: x if isinstance(x, SymInt) else _math.floor(x),
               isclose=lambda a, b, **k: _math.isclose(a, b, **k))


def _io_open(*a, **k):
    return vopen(*a, **k)


m_io = Proxy(_io, open=vopen)

MODULES = {
    'struct': m_struct, 'json': m_json, 'yaml': m_yaml, 'fnmatch': m_fnmatch, 'os': m_os, 'pathlib': m_pathlib,
    'collections': m_collections, 'functools': m_functools, 're': symre.module, 'math': m_math, 'io': m_io,
}
