"""Symbolic values and the path-exploring engine.

The code under test is executed by CPython itself (see loader.py); integers,
bytes and characters that come from the input are objects of this module, which
carry z3 terms.  Every time the program needs the truth value of a condition over
such terms, Engine.branch() asks the solver which outcomes are feasible and forks.
"""
import time

import z3

z3.set_param('auto_config', True)


class Control(BaseException):
    """Engine control flow; deliberately not an Exception, so that code under test cannot swallow it."""


class PathAbort(Control):
    """The path condition became unsatisfiable (an assumption excluded it)."""


class Unsupported(Control):
    """The encoding cannot follow the code here; the path is inconclusive."""


class SolverUnknown(Control):
    """The solver answered unknown."""


class StepLimit(Control):
    """More loop iterations than the bound derived for the scenario."""


class Event:
    __slots__ = ('kind', 'cond', 'value', 'alt', 'level')

    def __init__(self, kind, cond, value, alt, level):
        self.kind = kind
        self.cond = cond
        self.value = value
        self.alt = alt  # True if the other side is feasible and unexplored
        self.level = level  # number of solver pushes before this event


ENGINE = None


def engine():
    return ENGINE


class Engine:
    def __init__(self, query_timeout_ms=30000, tick_limit=4000, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.solver.set('random_seed', seed)
        self.tick_limit = tick_limit
        self.trace = []
        self.pos = 0
        self.pushes = 0
        self.model = None
        self.nvars = 0
        self.ticks = 0
        self.queries = 0
        self.decisions = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.functions = set()
        self.tokens = {}  # token int -> symbolic value
        self.token_of = {}  # ast id -> (token, value)  (holds the reference)
        self.next_token = 0
        self.inputs = {}  # name -> symbolic value, for models
        self.nondet_sets = False
        self.set_orders = 0
        self.vfs = {}
        self.caches = {}
        self.rounds = {}
        self.memo = {}
        self.path_rounds = set()

    # ------------------------------------------------------------ solver
    def _check(self, *assumptions):
        t = time.perf_counter()
        self.queries += 1
        r = self.solver.check(*assumptions)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
            raise SolverUnknown(str(self.solver.reason_unknown()))
        return r == z3.sat

    def feasible(self, cond):
        """Is the path condition together with cond satisfiable?  Returns a model or None."""
        self.solver.push()
        try:
            self.solver.add(cond)
            if self._check():
                return self.solver.model()
            return None
        finally:
            self.solver.pop()

    def _push(self, cond):
        self.solver.push()
        self.pushes += 1
        self.solver.add(cond)

    def cur_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def holds_in_model(self, cond):
        m = self.cur_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        return z3.is_true(v)

    # ------------------------------------------------------------ exploration
    def start_path(self):
        self.pos = 0
        self.nvars = 0
        self.ticks = 0
        self.inputs = {}
        self.set_orders = 0
        self.vfs = {}
        self.caches = {}
        self.path_rounds = set()
        self.decided = {}  # id of a condition met on this path -> its value there

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'b' or not ev.cond.eq(cond):
                raise Unsupported('non-deterministic re-execution')
            self.pos += 1
            self.decided[cond.get_id()] = ev.value
            return ev.value
        side = self.holds_in_model(cond)
        other = z3.Not(cond) if side else cond
        alt = self.feasible(other) is not None
        self.decisions += 1
        ev = Event('b', cond, side, alt, self.pushes)
        self.trace.append(ev)
        self.pos += 1
        self.decided[cond.get_id()] = side
        if alt:
            self._push(cond if side else z3.Not(cond))
        return side

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'a' or not ev.cond.eq(cond):
                raise Unsupported('non-deterministic re-execution (assume)')
            self.pos += 1
            if not ev.value:
                raise PathAbort()
            return
        level = self.pushes
        if self.model is not None and self.holds_in_model(cond):
            ok = True
        else:
            m = self.feasible(cond)
            ok = m is not None
            self.model = m
        self.trace.append(Event('a', cond, ok, False, level))
        self.pos += 1
        if not ok:
            raise PathAbort()
        self._push(cond)

    def backtrack(self):
        """Move to the next unexplored path.  Returns False when there is none."""
        while self.trace:
            ev = self.trace[-1]
            if ev.kind == 'b' and ev.alt:
                while self.pushes > ev.level:
                    self.solver.pop()
                    self.pushes -= 1
                ev.alt = False
                ev.value = not ev.value
                self._push(ev.cond if ev.value else z3.Not(ev.cond))
                self.model = None
                return True
            self.trace.pop()
        while self.pushes:
            self.solver.pop()
            self.pushes -= 1
        self.model = None
        return False

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            raise StepLimit(f'more than {self.tick_limit} loop iterations on one path')

    # ------------------------------------------------------------ values
    def new_int(self, name):
        if name in self.inputs:
            raise Unsupported(f'duplicate input {name}')
        v = SymInt(z3.Int(name))
        self.inputs[name] = v
        return v

    def rounded(self, e, n):
        """The integer nearest to e * 10**n (either neighbour at a tie)."""
        key = (n, e.get_id())
        ent = self.rounds.get(key)
        if ent is None:
            ent = (z3.Int(f'rounded!{len(self.rounds)}'), e)
            self.rounds[key] = ent
        k = ent[0]
        if key not in self.path_rounds:
            self.path_rounds.add(key)
            d = e * z3.Q(10 ** n, 1) - z3.ToReal(k)
            self.assume(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2)))
        return k

    def token(self, value):
        """A concrete number, unique for this term, which stands for it wherever text is needed."""
        key = value.e.get_id()
        ent = self.token_of.get(key)
        if ent is None:
            tok = 0xE5000000 + self.next_token
            self.next_token += 1
            ent = (tok, value)
            self.token_of[key] = ent
            self.tokens[tok] = value
        return ent[0]

    def untoken(self, n):
        """Map a number that was read back from text to the term it stands for."""
        if type(n) is int and n >= 0xE5000000:
            return self.tokens.get(n, n)
        return n


def _e(x):
    """z3 Int term of an int-like, or None."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if e is True or e is False or isinstance(e, SymBool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __and__(self, o):
        o = as_cond(o)
        return o if o is False else (self if o is True else SymBool(z3.And(self.e, o)))

    __rand__ = __and__

    def __or__(self, o):
        o = as_cond(o)
        return o if o is True else (self if o is False else SymBool(z3.Or(self.e, o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        if isinstance(o, (int, SymInt)):
            return mkbool(_e(self) == _e(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return SymInt(_e(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(_e(self)) * o

    __rmul__ = __mul__

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def as_cond(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return c
    if isinstance(c, (SymInt, SymReal)):
        return c.e != 0
    return bool(c)


def sym_not(c):
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.e))
    return not c


def sym_and(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def sym_or(*cs):
    out = []
    for c in cs:
        c = as_cond(c)
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return SymBool(z3.Or(*out) if len(out) > 1 else out[0])


def sym_ite(c, a, b):
    if isinstance(c, SymBool):
        if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
            return SymReal(z3.If(c.e, _r(a), _r(b)))
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(z3.If(c.e, z3.BoolVal(a) if isinstance(a, bool) else a.e,
                                z3.BoolVal(b) if isinstance(b, bool) else b.e))
        return SymInt(z3.If(c.e, _e(a), _e(b)))
    return a if c else b


def _bits_and_const(x, m):
    """x & m for a symbolic mathematical integer x and a constant m (two's complement semantics)."""
    if m == 0:
        return z3.IntVal(0)
    if m < 0:
        # x & m = x - (x & ~m)
        return x - _bits_and_const(x, ~m)
    if m & (m + 1) == 0:
        return x % z3.IntVal(m + 1)
    # group runs of one bits
    parts = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            width = j - i
            lo = 1 << i
            t = (x / z3.IntVal(lo)) % z3.IntVal(1 << width) if lo > 1 else x % z3.IntVal(1 << width)
            parts.append(t * lo if lo > 1 else t)
            i = j
        else:
            i += 1
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r


class SymInt(Sym):
    """A mathematical integer term.  (lowz, width): known multiple of 2**lowz and 0 <= x < 2**width, if known."""

    __slots__ = ('e', 'lowz', 'width', 'src')

    def __init__(self, e, lowz=0, width=None, src=None):
        self.e = e
        self.lowz = lowz
        self.width = width
        self.src = src  # (term, index, size): byte `index` (little endian order) of a size-byte field

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def _bin(self, o, f, rf=None):
        oe = _e(o)
        if oe is None:
            if isinstance(o, (float, SymReal)):
                return None
            return NotImplemented
        return mkint(f(self.e, oe))

    def __add__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(_r(self)) + o
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, float):
            return SymReal(_r(self)) + o
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(_r(self)) - o
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymReal(_r(o)) - self
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(_r(self)) * o
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return SymReal(_r(self)) / o

    def __rtruediv__(self, o):
        return SymReal(_r(o)) / self

    @staticmethod
    def _floordiv(a, b):
        # Python floors; z3's div rounds so that the remainder is non-negative.
        if z3.is_int_value(b):
            n = b.as_long()
            if n == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if n > 0:
                return a / b
            return (-a) / z3.IntVal(-n)
        if ENGINE.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ENGINE.branch(b > 0):
            return a / b
        return (-a) / (-b)

    def __floordiv__(self, o):
        oe = _e(o)
        if oe is None:
            return NotImplemented
        return mkint(self._floordiv(self.e, oe))

    def __rfloordiv__(self, o):
        oe = _e(o)
        if oe is None:
            return NotImplemented
        return mkint(self._floordiv(oe, self.e))

    def __mod__(self, o):
        oe = _e(o)
        if oe is None:
            return NotImplemented
        return mkint(self.e - oe * self._floordiv(self.e, oe)) if not (
            z3.is_int_value(oe) and oe.as_long() > 0) else mkint(self.e % oe)

    def __rmod__(self, o):
        oe = _e(o)
        if oe is None:
            return NotImplemented
        return mkint(oe - self.e * self._floordiv(oe, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('symbolic power')

    def __rpow__(self, o, mod=None):
        return o ** self.__index__()

    # ---- bits
    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if type(o) is not int:
            return NotImplemented
        return SymInt(self.e * (1 << o), self.lowz + o, None if self.width is None else self.width + o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if type(o) is not int:
            return NotImplemented
        w = None if self.width is None else max(self.width - o, 0)
        return SymInt(self.e / z3.IntVal(1 << o), max(self.lowz - o, 0), w)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is int:
            if o >= 0:
                e = _bits_and_const(self.e, o)
                if z3.is_int_value(e):
                    return e.as_long()
                return SymInt(e, (o & -o).bit_length() - 1 if o else 0, o.bit_length())
            return mkint(_bits_and_const(self.e, o))
        if isinstance(o, SymInt):
            if self.width is not None and o.lowz >= self.width:
                return 0
            if o.width is not None and self.lowz >= o.width:
                return 0
            if self.width is not None and o.width is not None:
                w = max(self.width, o.width, 1)
                return SymInt(z3.BV2Int(z3.Int2BV(self.e, w) & z3.Int2BV(o.e, w)), 0, w)
            raise Unsupported('symbolic & symbolic')
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is int:
            if o == 0:
                return self
            if o > 0 and self.lowz >= o.bit_length():
                return SymInt(self.e + o, 0, None if self.width is None else max(self.width, o.bit_length()))
            return mkint(self.e + o - _bits_and_const(self.e, o))
        if isinstance(o, SymInt):
            w = None if self.width is None or o.width is None else max(self.width, o.width)
            if (self.width is not None and o.lowz >= self.width) or (o.width is not None and self.lowz >= o.width):
                return SymInt(self.e + o.e, min(self.lowz, o.lowz), w)
            if w is not None:
                return SymInt(z3.BV2Int(z3.Int2BV(self.e, w) | z3.Int2BV(o.e, w)), 0, w)
            raise Unsupported('symbolic | symbolic')
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is int:
            return mkint(self.e + o - 2 * _bits_and_const(self.e, o))
        if isinstance(o, SymInt) and self.width is not None and o.width is not None:
            w = max(self.width, o.width, 1)
            return SymInt(z3.BV2Int(z3.Int2BV(self.e, w) ^ z3.Int2BV(o.e, w)), 0, w)
        raise Unsupported('symbolic ^')

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    # ---- comparison
    def _cmp(self, o, f):
        oe = _e(o)
        if oe is None:
            if isinstance(o, (float, SymReal)):
                return mkbool(f(_r(self), _r(o)))
            return NotImplemented
        return mkbool(f(self.e, oe))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # ---- concretisation by exhaustive case split
    def __index__(self):
        for _ in range(600):
            v = ENGINE.cur_model().eval(self.e, model_completion=True)
            n = z3.simplify(v).as_long()
            if ENGINE.pos < len(ENGINE.trace):
                # re-execution: follow the recorded decision, whatever value it named
                ev = ENGINE.trace[ENGINE.pos]
                c = ev.cond
                if ev.kind == 'b' and z3.is_eq(c) and z3.is_int_value(c.arg(1)) and c.arg(0).eq(self.e):
                    n = c.arg(1).as_long()
            if ENGINE.branch(self.e == z3.IntVal(n)):
                return n
        raise Unsupported('value has too many cases to enumerate')

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        raise Unsupported('float() of a symbolic integer at a C boundary')

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round')

    def __format__(self, spec):
        return format(ENGINE.token(self), spec)

    def __str__(self):
        return str(ENGINE.token(self))

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def bit_length(self):
        raise Unsupported('bit_length')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            raise Unsupported('signed to_bytes')
        out = [mkint((self.e / z3.IntVal(1 << (8 * i))) % 256) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        return SymBytes(out)


def _r(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    e = _e(x)
    if e is None:
        raise Unsupported(f'not a number: {type(x)}')
    return z3.ToReal(e)


class SymReal(Sym):
    """Stands for a float; the term is the exact real value (rounding of floats is outside the encoding)."""

    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def __add__(self, o):
        return SymReal(self.e + _r(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(self.e - _r(o))

    def __rsub__(self, o):
        return SymReal(_r(o) - self.e)

    def __mul__(self, o):
        return SymReal(self.e * _r(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = _r(o)
        if ENGINE.branch(z3.simplify(d == 0)):
            raise ZeroDivisionError('division by zero')
        return SymReal(self.e / d)

    def __rtruediv__(self, o):
        return SymReal(_r(o)) / self

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __eq__(self, o):
        try:
            return mkbool(self.e == _r(o))
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        try:
            return mkbool(self.e != _r(o))
        except Unsupported:
            return NotImplemented

    def __lt__(self, o):
        return mkbool(self.e < _r(o))

    def __le__(self, o):
        return mkbool(self.e <= _r(o))

    def __gt__(self, o):
        return mkbool(self.e > _r(o))

    def __ge__(self, o):
        return mkbool(self.e >= _r(o))

    def trunc(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        k = ENGINE.rounded(self.e, n or 0)
        if n is None:
            return SymInt(k)
        return SymReal(z3.ToReal(k) / z3.Q(10 ** n, 1) if n >= 0 else z3.ToReal(k) * 10 ** -n)

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __format__(self, spec):
        if spec.endswith('f'):
            p = spec[:-1].rpartition('.')
            n = int(p[2]) if p[1] else 6
            return format(ENGINE.token(round(self, n)), p[0] if p[1] else spec[:-1])
        if spec.endswith(('g', 'e', '%')):
            raise Unsupported('float format ' + spec)
        return format(ENGINE.token(self), spec)

    def __str__(self):
        return str(ENGINE.token(self))

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- strings
WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f'


def _ce(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


def ceq(a, b):
    """Condition that two characters are equal."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return mkbool(_ce(a) == _ce(b))


def mkstr(chars):
    chars = tuple(chars)
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SymStr(chars)


def chars_of(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(s)
    raise TypeError(f'expected str, got {type(s).__name__}')


def char_in(c, alphabet):
    if isinstance(c, str):
        return c in alphabet
    return sym_or(*[mkbool(c == ord(a)) for a in alphabet])


def str_eq(a, b):
    a, b = chars_of(a), chars_of(b)
    if len(a) != len(b):
        return False
    return sym_and(*[ceq(x, y) for x, y in zip(a, b)])


class SymStr(Sym):
    """A string of known length whose characters may be symbolic code points."""

    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        for c in self.c:
            yield mkstr((c,))

    def __getitem__(self, k):
        if isinstance(k, SymInt):
            k = k.__index__()
        if isinstance(k, slice):
            return mkstr(self.c[k])
        return mkstr((self.c[k],))

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(self.c + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(chars_of(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.c * n)

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return str_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return sym_not(str_eq(self, o))
        return NotImplemented

    def _lt(self, o, strict):
        a, b = self.c, chars_of(o)
        # lexicographic comparison as one formula
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            xe, ye = _ce(x), _ce(y)
            res = sym_or(mkbool(z3.simplify(xe < ye)), sym_and(mkbool(z3.simplify(xe == ye)), res))
        return res

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return sym_not(self._lt(o, False))

    def __ge__(self, o):
        return sym_not(self._lt(o, True))

    def concretise(self):
        out = []
        for c in self.c:
            out.append(c if isinstance(c, str) else chr(SymInt(c).__index__()))
        return ''.join(out)

    def __hash__(self):
        return hash(self.concretise())

    def __str__(self):
        # only reached at C boundaries (diagnostics); keep it total
        return ''.join(c if isinstance(c, str) else '\ufffd' for c in self.c)

    def __repr__(self):
        return f'SymStr({str(self)!r})'

    def __format__(self, spec):
        raise Unsupported('format of a symbolic string outside an f-string')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __fspath__(self):
        return self.concretise()

    # ---- predicates (single formulas, no forking)
    def _at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        return sym_and(*[ceq(self.c[i + j], s) for j, s in enumerate(sub)])

    def startswith(self, prefix, start=0, end=None):
        s = mkstr(self.c[start:end])
        if isinstance(prefix, tuple):
            return sym_or(*[SymStr(chars_of(s)).startswith(p) for p in prefix])
        return SymStr(chars_of(s))._at(chars_of(prefix), 0)

    def endswith(self, suffix, start=0, end=None):
        s = SymStr(self.c[start:end])
        if isinstance(suffix, tuple):
            return sym_or(*[s.endswith(p) for p in suffix])
        sub = chars_of(suffix)
        return s._at(sub, len(s.c) - len(sub))

    def contains(self, sub):
        sub = chars_of(sub)
        return sym_or(*[self._at(sub, i) for i in range(len(self.c) - len(sub) + 1)])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    # ---- searches (fork on the position)
    def find(self, sub, start=0, end=None):
        sub = chars_of(sub)
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = chars_of(sub)
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(end - len(sub), start - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        n = i = 0
        L = len(chars_of(sub))
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += L

    def _ws(self, i, chars=None):
        return bool(char_in(self.c[i], WS if chars is None else chars))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._ws(i, chars):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        n = len(self.c)
        while n and self._ws(n - 1, chars):
            n -= 1
        return mkstr(self.c[:n])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            while True:
                while i < n and self._ws(i):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = mkstr(self.c[i:])
                    out.append(rest.rstrip())
                    return out
                j = i
                while j < n and not self._ws(j):
                    j += 1
                out.append(mkstr(self.c[i:j]))
                i = j
        i = 0
        L = len(chars_of(sep))
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mkstr(self.c[i:j]))
            i = j + L
        out.append(mkstr(self.c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out = []
        end = len(self.c)
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        L = len(chars_of(sep))
        while len(out) < maxsplit:
            j = self.rfind(sep, 0, end)
            if j < 0:
                break
            out.append(mkstr(self.c[j + L:end]))
            end = j
        out.append(mkstr(self.c[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(chars_of(sep)):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(chars_of(sep)):]))

    def splitlines(self, keepends=False):
        out, cur, last = [], [], None
        for c in self.c:
            prev, last = last, c
            if isinstance(c, str) and c == '\n' and isinstance(prev, str) and prev == '\r':
                if keepends:
                    out[-1] = out[-1] + c
                continue
            if isinstance(c, str) and c in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029':
                out.append(mkstr(cur + [c] if keepends else cur))
                cur = []
            else:
                cur.append(c)  # alphabets of symbolic characters exclude line separators
        if cur:
            out.append(mkstr(cur))
        return out

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported('replace of the empty string')
        out = []
        i = 0
        n = 0
        while count < 0 or n < count:
            j = self.find(old, i)
            if j < 0:
                break
            out.extend(self.c[i:j])
            out.extend(chars_of(new))
            i = j + len(old)
            n += 1
        out.extend(self.c[i:])
        return mkstr(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.extend(self.c)
            out.extend(chars_of(it))
        return mkstr(out)

    def _map(self, lo, hi, delta):
        return mkstr([(chr(ord(c) + delta) if lo <= ord(c) <= hi else c) if isinstance(c, str)
                      else z3.If(z3.And(c >= lo, c <= hi), c + delta, c) for c in self.c])

    def lower(self):
        return self._map(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._map(97, 122, -32)

    def removeprefix(self, p):
        return mkstr(self.c[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self.c[:len(self.c) - len(p)]) if len(p) and self.endswith(p) else self

    def isspace(self):
        return bool(self.c) and all(self._ws(i) for i in range(len(self.c)))

    def isdigit(self):
        return sym_and(bool(self.c), *[char_in(c, '0123456789') for c in self.c])

    isnumeric = isdecimal = isdigit

    def ljust(self, n, fill=' '):
        return mkstr(self.c + (fill,) * max(0, n - len(self.c)))

    def rjust(self, n, fill=' '):
        return mkstr((fill,) * max(0, n - len(self.c)) + self.c)

    def encode(self, *a, **k):
        return SymBytes([ord(c) if isinstance(c, str) else SymInt(c) for c in self.c])

    def translate(self, table):
        raise Unsupported('translate')

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')


def promote(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


def contains_sym(x, depth=2):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(contains_sym(i, depth - 1) for i in x)
    return False


# ---------------------------------------------------------------- bytes
class SymBytes(Sym):
    """bytes of known length whose elements may be symbolic."""

    __slots__ = ('b',)

    def __init__(self, items):
        self.b = list(items)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, k):
        if isinstance(k, SymInt):
            k = k.__index__()
        if isinstance(k, slice):
            k = slice(*[x.__index__() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])
            return mkbytes(self.b[k])
        return self.b[k]

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            ob = list(o)
            if len(ob) != len(self.b):
                return False
            return sym_and(*[a == b for a, b in zip(self.b, ob)])
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __add__(self, o):
        return mkbytes(self.b + list(o))

    def __radd__(self, o):
        return mkbytes(list(o) + self.b)

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def find(self, sub, start=0, end=None):
        sub = [sub] if isinstance(sub, (int, SymInt)) else list(sub)
        if isinstance(start, SymInt):
            start = start.__index__()
        start, end, _ = slice(start, end).indices(len(self.b))
        for i in range(start, end - len(sub) + 1):
            if sym_and(*[self.b[i + j] == s for j, s in enumerate(sub)]):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def startswith(self, p):
        p = list(p)
        return len(p) <= len(self.b) and sym_and(*[a == b for a, b in zip(self.b, p)])

    def split(self, sep, maxsplit=-1):
        out, i = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mkbytes(self.b[i:j]))
            i = j + len(sep)
        out.append(mkbytes(self.b[i:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, b'', b'')
        return (mkbytes(self.b[:i]), sep, mkbytes(self.b[i + len(sep):]))

    def decode(self, *a, **k):
        out = []
        for x in self.b:
            if isinstance(x, SymInt):
                if not (x < 128):
                    raise Unsupported('non-ASCII byte in a symbolic string')
                out.append(x.e)
            else:
                out.append(chr(x))
        return mkstr(out)

    def hex(self, *a):
        return ''.join('??' if isinstance(x, SymInt) else f'{x:02x}' for x in self.b)

    def __str__(self):
        return f'SymBytes({len(self.b)})'

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkbytes(items):
    items = list(items)
    if all(type(x) is int for x in items):
        return bytes(items)
    return SymBytes(items)


# ---------------------------------------------------------------- containers
def is_concrete(k):
    if isinstance(k, Sym):
        return False
    if isinstance(k, tuple):
        return all(is_concrete(x) for x in k)
    return True


def _truth(x):
    return bool(x)


def key_eq(a, b):
    """Equality of dictionary keys as a forking decision."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(key_eq(x, y) for x, y in zip(a, b))
    r = a == b
    if r is NotImplemented:
        return False
    return bool(r)


class _K:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


_MISSING = object()


class _View:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        n = len(self.d)
        for k, v in list(self.d._raw()):
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            if self.what == 'k':
                yield k
            elif self.what == 'v':
                yield v
            else:
                yield (k, v)

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, x):
        if self.what == 'k':
            return x in self.d
        for y in self:
            if key_eq(x, y):
                return True
        return False

    def _set(self):
        return SymSet(iter(self))

    def __or__(self, o):
        return self._set() | o

    def __and__(self, o):
        return self._set() & o

    def __sub__(self, o):
        return self._set() - o

    def __ror__(self, o):
        return SymSet(o) | self

    def __rand__(self, o):
        return SymSet(o) & self

    def __rsub__(self, o):
        return SymSet(o) - self

    def __xor__(self, o):
        return self._set() ^ o

    def __eq__(self, o):
        return self._set() == o

    def __le__(self, o):
        return self._set() <= SymSet(o)

    def __repr__(self):
        return f'view({list(self)!r})'

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)


class SymDict(dict):
    """dict whose keys may be symbolic: lookups compare keys and fork on undecided equalities."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sym = False
        self.update(*a, **k)

    def _raw(self):
        if self._sym:
            return [(w.k, v) for w, v in dict.items(self)]
        return dict.items(self)

    def _find(self, k):
        """Native key for k or _MISSING."""
        if not self._sym:
            if is_concrete(k):
                return k if dict.__contains__(self, k) else _MISSING
            for kk in dict.keys(self):
                if key_eq(kk, k):
                    return kk
            return _MISSING
        for w in dict.keys(self):
            if key_eq(w.k, k):
                return w
        return _MISSING

    def _to_sym(self):
        if self._sym:
            return
        items = list(dict.items(self))
        dict.clear(self)
        self._sym = True
        for k, v in items:
            dict.__setitem__(self, _K(k), v)

    def __setitem__(self, k, v):
        if not self._sym and is_concrete(k):
            dict.__setitem__(self, k, v)
            return
        n = self._find(k)
        if n is not _MISSING:
            dict.__setitem__(self, n, v)
            return
        self._to_sym()
        dict.__setitem__(self, _K(k), v)

    def __getitem__(self, k):
        n = self._find(k)
        if n is _MISSING:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return dict.__getitem__(self, n)

    def __delitem__(self, k):
        n = self._find(k)
        if n is _MISSING:
            raise KeyError(k)
        dict.__delitem__(self, n)

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def get(self, k, default=None):
        n = self._find(k)
        return default if n is _MISSING else dict.__getitem__(self, n)

    def setdefault(self, k, default=None):
        n = self._find(k)
        if n is not _MISSING:
            return dict.__getitem__(self, n)
        self[k] = default
        return default

    def pop(self, k, *d):
        n = self._find(k)
        if n is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        return dict.pop(self, n)

    def popitem(self):
        k, v = dict.popitem(self)
        return (k.k if self._sym else k), v

    def update(self, *a, **kw):
        for src in a:
            if isinstance(src, SymDict):
                for k, v in list(src._raw()):
                    self[k] = v
            elif hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def items(self):
        return _View(self, 'i')

    def keys(self):
        return _View(self, 'k')

    def values(self):
        return _View(self, 'v')

    def __iter__(self):
        return iter(_View(self, 'k'))

    def __reversed__(self):
        return reversed(list(self))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(o) != len(self):
            return False
        for k, v in self.items():
            if isinstance(o, SymDict):
                n = o._find(k)
                if n is _MISSING:
                    return False
                ov = dict.__getitem__(o, n)
            else:
                for kk in o:
                    if key_eq(kk, k):
                        ov = o[kk]
                        break
                else:
                    return False
            if not (v == ov):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return self.__copy__()

    def __copy__(self):
        new = type(self).__new__(type(self))
        SymDict.__init__(new)
        for k, v in self.__dict__.items():
            if k != '_sym':
                new.__dict__[k] = v
        for k, v in self._raw():
            new[k] = v
        return new

    def _fresh_insert(self, k, v):
        if is_concrete(k) and not self._sym:
            dict.__setitem__(self, k, v)
        else:
            self._to_sym()
            dict.__setitem__(self, _K(k), v)

    def __deepcopy__(self, memo):
        import copy as _copy
        new = type(self).__new__(type(self))
        SymDict.__init__(new)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k != '_sym':
                new.__dict__[k] = v
        for k, v in self._raw():
            new._fresh_insert(k, _copy.deepcopy(v, memo))
        return new

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __ror__(self, o):
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def clear(self):
        dict.clear(self)
        self._sym = False

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self._raw()) + '}'

    def __reduce__(self):
        raise Unsupported('pickle')


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.__dict__['default_factory'] = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SymCounter(SymDict):
    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it or ())

    def __missing__(self, k):
        return 0

    def update(self, it=()):
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = self[k] + v
        else:
            for k in it:
                self[k] = self[k] + 1

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda i: i[1], reverse=True)
        return r if n is None else r[:n]


class SymSet:
    """set of possibly symbolic elements.  With Engine.nondet_sets its iteration order is a symbolic choice
    (the real order of a set of strings depends on the interpreter's hash seed)."""

    def __init__(self, it=()):
        self.d = SymDict()
        for x in it:
            self.d[x] = None

    def _order(self):
        xs = list(self.d.keys())
        if ENGINE is not None and ENGINE.nondet_sets and len(xs) > 1:
            out = []
            while len(xs) > 1:
                ENGINE.set_orders += 1
                v = z3.Int(f'set_order_{ENGINE.set_orders}')
                for i in range(len(xs) - 1):
                    if ENGINE.branch(v == i):
                        break
                else:
                    i = len(xs) - 1
                out.append(xs.pop(i))
            return out + xs
        return xs

    def __iter__(self):
        return iter(self._order())

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __contains__(self, x):
        return x in self.d

    def add(self, x):
        self.d[x] = None

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        for x in self._order():
            self.d.pop(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self.d.keys())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def intersection(self, *its):
        s = self
        for it in its:
            o = SymSet(it)
            s = SymSet([x for x in s.d.keys() if x in o])
        return s

    def difference(self, *its):
        s = self
        for it in its:
            o = SymSet(it)
            s = SymSet([x for x in s.d.keys() if x not in o])
        return s

    def symmetric_difference(self, it):
        o = SymSet(it)
        return self.difference(o).union(o.difference(self))

    __or__ = __ror__ = union

    def __ior__(self, o):
        self.update(o)
        return self

    __and__ = __rand__ = intersection
    __sub__ = difference

    def __rsub__(self, o):
        return SymSet(o) - self

    __xor__ = symmetric_difference

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self.d.keys())

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not self.intersection(o)

    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        if isinstance(o, (set, frozenset, SymSet, _View)):
            return len(o) == len(self) and all(x in self for x in o)
        return NotImplemented

    def __hash__(self):
        raise Unsupported('hash of a set')

    def __repr__(self):
        return 'set(' + repr(list(self.d.keys())) + ')'


def deep_eq(a, b):
    """Equality of two data structures as one condition (forks only to match dictionary keys)."""
    if isinstance(a, (dict,)) and isinstance(b, (dict,)):
        if len(a) != len(b):
            return False
        conds = []
        bl = list(b.items())
        for k, v in a.items():
            for kk, vv in bl:
                if key_eq(k, kk):
                    break
            else:
                return False
            c = deep_eq(v, vv)
            if c is False:
                return False
            conds.append(c)
        return sym_and(*conds)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = deep_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return sym_and(*conds)
    if isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes)):
        return a == b
    r = a == b
    if r is NotImplemented:
        return False
    return r
