"""re for subjects with symbolic characters: a backtracking matcher that forks on undecided characters."""
import re as _re
import types

import z3

from . import core
from .core import SymStr, Unsupported, mkstr

try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

CAT = {sc.CATEGORY_SPACE: _re.compile(r'\s'), sc.CATEGORY_NOT_SPACE: _re.compile(r'\S'),
       sc.CATEGORY_DIGIT: _re.compile(r'\d'), sc.CATEGORY_NOT_DIGIT: _re.compile(r'\D'),
       sc.CATEGORY_WORD: _re.compile(r'\w'), sc.CATEGORY_NOT_WORD: _re.compile(r'\W')}


def _cls(c, pred):
    """Does character c satisfy a predicate over ASCII?  Concrete or a forking decision."""
    if isinstance(c, str):
        return pred(c)
    ok = [i for i in range(128) if pred(chr(i))]
    # ranges
    conds, i = [], 0
    while i < len(ok):
        j = i
        while j + 1 < len(ok) and ok[j + 1] == ok[j] + 1:
            j += 1
        conds.append(z3.And(c >= ok[i], c <= ok[j]))
        i = j + 1
    if not conds:
        return False
    return core.ENGINE.branch(z3.Or(*conds))


def _pred(op, av, flags):
    if op is sc.LITERAL:
        return lambda ch: ord(ch) == av
    if op is sc.NOT_LITERAL:
        return lambda ch: ord(ch) != av
    if op is sc.ANY:
        return (lambda ch: True) if flags & _re.S else (lambda ch: ch != '\n')
    if op is sc.IN:
        neg = av and av[0][0] is sc.NEGATE

        def p(ch):
            r = False
            for o, a in av:
                if o is sc.LITERAL and ord(ch) == a:
                    r = True
                elif o is sc.RANGE and a[0] <= ord(ch) <= a[1]:
                    r = True
                elif o is sc.CATEGORY and CAT[a].match(ch):
                    r = True
            return r != neg
        return p
    return None


class Match:
    def __init__(self, pat, s, spans):
        self.re = pat
        self.string = s
        self.spans = spans

    def _idx(self, g):
        return self.re.real.groupindex[g] if isinstance(g, str) else g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            sp = self.spans.get(self._idx(g))
            out.append(None if sp is None else self.string[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.spans.get(i) is None else self.group(i)
                     for i in range(1, self.re.real.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(i) for k, i in self.re.real.groupindex.items()}

    def start(self, g=0):
        return self.spans[self._idx(g)][0]

    def end(self, g=0):
        return self.spans[self._idx(g)][1]

    def span(self, g=0):
        return self.spans[self._idx(g)]

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            raise Unsupported('symbolic regular expression')
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.tree = None

    def __getattr__(self, n):
        return getattr(self.real, n)

    def _m(self, nodes, i, cs, pos, groups, k):
        """Match nodes[i:] at pos, then continuation k(pos, groups).  Returns groups or None."""
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        nxt = lambda p, g: self._m(nodes, i + 1, cs, p, g, k)
        pr = _pred(op, av, self.flags)
        if pr is not None:
            if pos < len(cs) and _cls(cs[pos], pr):
                return nxt(pos + 1, groups)
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return nxt(pos, groups) if pos == 0 else None
            if av is sc.AT_END_STRING or av is sc.AT_END:
                return nxt(pos, groups) if pos == len(cs) else None
            raise Unsupported('regex anchor')
        if op is sc.SUBPATTERN:
            g, _, _, sub = av

            def done(p, gr):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (pos, p)
                return nxt(p, gr)
            return self._m(list(sub), 0, cs, pos, groups, done)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, cs, pos, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, p, gr, last):
                def more():
                    if n < hi and p != last:
                        return self._m(sub, 0, cs, p, gr, lambda p2, g2: rep(n + 1, p2, g2, p))
                    return None

                def stop():
                    return nxt(p, gr) if n >= lo else None
                if op is sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else stop()
                r = stop()
                return r if r is not None else more()
            return rep(0, pos, groups, -1)
        raise Unsupported(f'regex operator {op}')

    def _at(self, s, pos, full=False):
        if self.tree is None:
            self.tree = list(sre_parse.parse(self.pattern, self.flags & ~_re.U))
        cs = core.chars_of(s)

        def end(p, g):
            if full and p != len(cs):
                return None
            g = dict(g)
            g[0] = (pos, p)
            return g
        r = self._m(self.tree, 0, cs, pos, {}, end)
        return None if r is None else Match(self, s, r)

    def match(self, s, *a):
        return self._at(s, *(a or (0,))) if isinstance(s, SymStr) else self.real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._at(s, 0, True) if isinstance(s, SymStr) else self.real.fullmatch(s, *a)

    def search(self, s, *a):
        if not isinstance(s, SymStr):
            return self.real.search(s, *a)
        for p in range(a[0] if a else 0, len(s) + 1):
            m = self._at(s, p)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not isinstance(s, SymStr):
            yield from self.real.finditer(s)
            return
        p = 0
        while p <= len(s):
            m = self._at(s, p)
            if m is None:
                p += 1
                continue
            yield m
            p = m.end() if m.end() > p else p + 1

    def findall(self, s):
        if not isinstance(s, SymStr):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            n = self.real.groups
            out.append(m.group() if n == 0 else (m.group(1) if n == 1 else m.groups()))
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        out, p, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            if m.end() == m.start():
                continue
            out.append(s[p:m.start()])
            out.extend(m.groups())
            p = m.end()
            n += 1
        out.append(s[p:])
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            return self.real.sub(repl, s, count)
        raise Unsupported('re.sub on symbolic text')


_CACHE = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    if isinstance(p, _re.Pattern):
        flags, p = p.flags & ~_re.U, p.pattern
    k = (p, int(flags))
    if k not in _CACHE:
        _CACHE[k] = Pattern(p, flags)
    return _CACHE[k]


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_re, n)


module = _Mod('re')
module.__dict__['compile'] = compile
for _n in ('match', 'search', 'fullmatch', 'finditer', 'findall', 'split', 'sub'):
    def _f(p, *a, _n=_n, **k):
        flags = k.pop('flags', 0)
        return getattr(compile(p, flags), _n)(*a, **k)
    module.__dict__[_n] = _f
