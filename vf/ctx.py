"""The interface a harness is written against.  The same harness runs

* symbolically (SymCtx): inputs are solver variables, the package is the instrumented source of /repo;
* concretely (ConcCtx): inputs come from a solver model, the package is /repo's source as users run it.

This module must not import z3: the concrete side runs in the project's own interpreter.
"""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile

from . import fresh


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """Concrete run only: an assumption does not hold for the given values."""


NUM = re.compile(r'[-+]?\d+(?:\.\d+)?')


class Ctx:
    sym = False

    def __init__(self):
        fresh.restore()
        self.dir = None
        self.dirs = []
        self.labels = []

    # ---------------------------------------------------------- package
    def mod(self, name):
        import importlib
        m = importlib.import_module('esp_idf_size' + ('.' + name if name else ''))
        fresh.note()
        return m

    # ---------------------------------------------------------- files
    def tmp(self):
        if self.dir is None:
            self.dir = os.path.realpath(tempfile.mkdtemp(prefix='vfx'))
            self.dirs.append(self.dir)
        return self.dir

    def path(self, rel):
        p = os.path.join(self.tmp(), rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def cleanup(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []
        self.dir = None

    # ---------------------------------------------------------- command line
    def cli(self, argv, env=None, encoding=None):
        """Run the command line entry point in-process.  Returns Result.

        env: additional environment variables; encoding: the encoding of the locale and of the standard output.
        """
        import importlib
        import locale
        import unittest.mock as mock
        main = self.mod('main')
        out, err = io.StringIO(), io.StringIO()
        code, exc = 0, None
        saved = sys.argv
        cwd = os.getcwd()
        from esp_pylib.logger import log as esp_log
        with contextlib.ExitStack() as st:
            if env:
                st.enter_context(mock.patch.dict(os.environ, env))
            if encoding:
                out = Encoded(encoding)
                st.enter_context(mock.patch.object(locale, 'getpreferredencoding', lambda *a: encoding))
                st.enter_context(mock.patch.object(locale, 'getencoding', lambda: encoding))
                # what the module reads from the locale it may read when it is imported
                pkg = sys.modules['esp_idf_size']
                st.enter_context(mock.patch.dict(sys.modules))
                st.enter_context(mock.patch.object(pkg, 'main', main))
                del sys.modules[main.__name__]
                main = importlib.import_module(main.__name__)
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    try:
                        esp_log.set_console_options(file=None)
                    except Exception:
                        pass
                    try:
                        main.main.main(args=[str(a) for a in argv], prog_name='esp-idf-size', standalone_mode=False)
                    except SystemExit as e:
                        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                    except Exception as e:
                        code, exc = 1, e
            finally:
                sys.argv = saved
                os.chdir(cwd)
        return Result(code, out.getvalue(), err.getvalue(), exc)

    def quiet(self):
        """Context manager swallowing what the code under test prints."""
        st = contextlib.ExitStack()
        st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        st.enter_context(contextlib.redirect_stderr(io.StringIO()))
        return st

    def call(self, fn, *a, **k):
        """(value, exception); SystemExit counts as an exception."""
        with self.quiet():
            try:
                return fn(*a, **k), None
            except (Exception, SystemExit) as e:
                self.note_exception(e)
                return None, e

    def note_exception(self, e):
        pass

    # ---------------------------------------------------------- conveniences shared by both modes
    def nums(self, text):
        """All numbers in text, in order."""
        return [self.num(t) for t in NUM.findall(text)]

    def sum(self, it):
        r = 0
        for x in it:
            r = r + x
        return r

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def fork(self, c):
        """Decide c: a symbolic run follows both outcomes."""
        return bool(c)

    def all_eq(self, pairs):
        return self.And(*[self.eq(a, b) for a, b in pairs])

    def memo(self, key, fn):
        """fn(), which must depend on key and the named inputs only and must not branch."""
        return fn()

    def hexnum(self, n, width=0):
        """Text of a number as the linker prints it."""
        return self.hex(n)


class Encoded(io.StringIO):
    """A standard output of the given encoding."""

    def __init__(self, encoding):
        super().__init__()
        self.coding = encoding

    @property
    def encoding(self):
        return self.coding


class Result:
    def __init__(self, code, out, err, exc):
        self.code = code
        self.out = out
        self.err = err
        self.exc = exc

    def __repr__(self):
        return f'Result(code={self.code}, exc={self.exc!r}, out={self.out[:200]!r}, err={self.err[:200]!r})'


class ConcCtx(Ctx):
    """Concrete replay."""

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.failed = []
        self.passed = 0
        self.obs = []

    def int(self, name, lo, hi):
        return self.values.get(name, lo)

    def choice(self, name, options):
        options = list(options)
        i = self.values.get(name, 0)
        return options[i if 0 <= i < len(options) else 0]

    def flag(self, name):
        return bool(self.values.get(name, 0))

    def str(self, name, n, alphabet):
        return ''.join(chr(self.values.get(f'{name}[{i}]', ord(alphabet[0]))) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, label, cond, info=None):
        if cond:
            self.passed += 1
        else:
            self.failed.append((label, repr(info)[:600] if info is not None else ''))

    def observe(self, key, value):
        self.obs.append([key, norm(value)])

    def And(self, *c):
        return all(c)

    def Or(self, *c):
        return any(c)

    def Not(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        return a == b

    def deep_eq(self, a, b):
        return a == b

    def near(self, a, b):
        """Equality of a printed percentage with the exact value (two decimals)."""
        return abs(a - b) <= 0.0100001

    def round2(self, x):
        return round(x, 2)

    def data(self, x):
        return x

    def hex(self, n):
        return hex(n)

    def dec(self, n):
        return str(n)

    def num(self, text):
        text = text.strip()
        return float(text) if '.' in text else int(text)

    def loads(self, text):
        import json
        return json.loads(text)

    def write(self, rel, text):
        p = self.path(rel)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text if isinstance(text, str) else ''.join(text))
        return p

    def field(self, n, size, big=False):
        return list((n & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if big else 'little'))

    def byte(self, name, lo=0, hi=255):
        return self.values.get(name, lo)

    def write_bytes(self, rel, items):
        p = self.path(rel)
        with open(p, 'wb') as f:
            f.write(bytes(items))
        return p

    def bytes(self, items):
        return bytes(items)

    def nondet_sets(self, on=True):
        pass


def norm(v):
    """Canonical JSON-able form for comparing observations."""
    if isinstance(v, dict):
        return [[norm(k), norm(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, float):
        return round(v, 4)
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, str)) or v is None:
        return v
    if isinstance(v, bytes):
        return v.hex()
    return repr(type(v).__name__)
