"""Symbolic side of the harness interface and the exploration of one scenario."""
import os
import random
import time
import traceback

import z3

from . import core, ctx as C
from .core import (PathAbort, SolverUnknown, StepLimit, SymBool, SymBytes, SymDict, SymInt, SymReal, SymSet, SymStr,
                   Unsupported, sym_and, sym_ite, sym_not, sym_or)
from .shims import wrap


class SymCtx(C.Ctx):
    sym = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng
        self.checks = []
        self.obs = []
        self.exc_notes = []

    # ---------------------------------------------------------- inputs
    def int(self, name, lo, hi):
        v = self.e.new_int(name)
        if lo >= 0:
            v.width = hi.bit_length()
        self.e.assume(z3.And(v.e >= lo, v.e <= hi))
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.e.new_int(name)
        self.e.assume(z3.And(v.e >= 0, v.e < len(options)))
        for i in range(len(options) - 1):
            if self.e.branch(v.e == i):
                return options[i]
        return options[-1]

    def flag(self, name):
        return self.choice(name, [False, True])

    def str(self, name, n, alphabet):
        chars = []
        for i in range(n):
            v = self.e.new_int(f'{name}[{i}]')
            codes = sorted({ord(c) for c in alphabet})
            self.e.assume(z3.Or(*[v.e == c for c in codes]))
            chars.append(v.e)
        return core.mkstr(chars)

    def byte(self, name, lo=0, hi=255):
        v = self.e.new_int(name)
        v.width = 8
        self.e.assume(z3.And(v.e >= lo, v.e <= hi))
        return v

    def field(self, n, size, big=False):
        """Bytes of an integer field in a file."""
        if isinstance(n, SymInt):
            bs = [SymInt((n.e / (1 << (8 * i))) % 256, 0, 8, src=(n.e, i, size)) for i in range(size)]
            return bs[::-1] if big else bs
        return list((n & ((1 << (8 * size)) - 1)).to_bytes(size, 'big' if big else 'little'))

    def assume(self, cond):
        c = core.as_cond(cond)
        self.e.assume(c)

    # ---------------------------------------------------------- claims
    def check(self, label, cond, info=None):
        if isinstance(cond, SymSet) or cond is NotImplemented:
            raise Unsupported('check condition')
        c = core.as_cond(cond)
        self.checks.append((label, c))

    def observe(self, key, value):
        self.obs.append((key, value))

    And = staticmethod(sym_and)
    Or = staticmethod(sym_or)
    Not = staticmethod(sym_not)
    ite = staticmethod(sym_ite)

    def eq(self, a, b):
        r = core.deep_eq(a, b)
        return r

    deep_eq = eq

    def near(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 0.0100001
        a, b = core._r(a), core._r(b)
        return core.mkbool(z3.simplify(z3.And(a - b <= z3.Q(11, 1000), b - a <= z3.Q(11, 1000))))

    def round2(self, x):
        return round(x, 2)

    def memo(self, key, fn):
        c = self.e.memo
        if key not in c:
            n = self.e.pos
            c[key] = fn()
            assert self.e.pos == n, 'memo branched'
        return c[key]

    def data(self, x):
        if isinstance(x, dict):
            return SymDict((k, self.data(v)) for k, v in x.items())
        if isinstance(x, list):
            return [self.data(v) for v in x]
        return x

    # ---------------------------------------------------------- text
    def hex(self, n):
        return hex(self.e.token(n)) if isinstance(n, SymInt) else hex(n)

    def dec(self, n):
        return str(n)

    def num(self, text):
        text = text.strip()
        if '.' in text:
            return float(text)
        neg = text.startswith('-')
        n = self.e.untoken(abs(int(text)))
        return -n if neg else n

    def loads(self, text):
        import json
        return wrap(json.loads(text))

    def write(self, rel, text):
        p = self.path(rel)
        if isinstance(text, (list, tuple)):
            chars = []
            for t in text:
                chars.extend(core.chars_of(t))
            text = core.mkstr(chars)
        if isinstance(text, SymStr):
            with open(p, 'w') as f:
                f.write('')
            self.e.vfs[os.path.realpath(p)] = list(text.c)
            return p
        self.e.vfs.pop(os.path.realpath(p), None)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)
        return p

    def write_bytes(self, rel, items):
        p = self.path(rel)
        items = list(items)
        with open(p, 'wb') as f:
            f.write(bytes(0 if isinstance(x, SymInt) else x for x in items))
        self.e.vfs.pop(os.path.realpath(p), None)
        if any(isinstance(x, SymInt) for x in items):
            self.e.vfs[os.path.realpath(p)] = items
        return p

    def bytes(self, items):
        return core.mkbytes(items)

    def nondet_sets(self, on=True):
        self.e.nondet_sets = on

    def note_exception(self, e):
        # Exceptions that proxies can provoke where real values would not; the path is then not trusted.
        if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
            self.exc_notes.append(traceback.format_exc())


def evaluate(m, v):
    """Concrete value of a (data structure of) symbolic value(s) under a model."""
    if isinstance(v, SymInt):
        r = z3.simplify(m.eval(v.e, model_completion=True))
        return r.as_long()
    if isinstance(v, SymBool):
        return z3.is_true(z3.simplify(m.eval(v.e, model_completion=True)))
    if isinstance(v, SymReal):
        r = z3.simplify(m.eval(v.e, model_completion=True))
        try:
            return float(r.as_fraction())
        except Exception:
            return None
    if isinstance(v, SymStr):
        return ''.join(c if isinstance(c, str) else chr(z3.simplify(m.eval(c, model_completion=True)).as_long())
                       for c in v.c)
    if isinstance(v, SymBytes):
        return bytes(evaluate(m, x) if isinstance(x, SymInt) else x for x in v.b)
    if isinstance(v, dict):
        return {evaluate(m, k): evaluate(m, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [evaluate(m, x) for x in v]
    return v


def values_of(eng, m):
    out = {}
    for name, v in eng.inputs.items():
        out[name] = z3.simplify(m.eval(v.e, model_completion=True)).as_long()
    return out


def explore(fn, params, budget_s=120.0, max_paths=200000, query_timeout_ms=20000, tick_limit=4000, samples=4, seed=1,
            max_cex=4):
    """Run one scenario to exhaustion (or to its budget).  Returns a plain dict."""
    eng = core.Engine(query_timeout_ms=query_timeout_ms, tick_limit=tick_limit, seed=seed)
    core.ENGINE = eng
    t0 = time.time()
    st = dict(paths=0, aborted=0, inconclusive=0, truncated=False, checks=0, check_queries=0, trivial=0, cex=[],
              labels={}, samples=[], notes=[], decisions=0, queries=0, solver_s=0.0, functions=[], max_depth=0)
    seen_labels = set()
    rng = random.Random(seed)
    crashes = set()
    nsamp = 0
    while True:
        eng.start_path()
        ctx = SymCtx(eng)
        outcome = 'done'
        err = None
        try:
            fn(ctx, **params)
        except PathAbort:
            outcome = 'abort'
        except Unsupported as e:
            outcome, err = 'unsupported', f'unsupported: {e} @ {where(e)}'
        except SolverUnknown as e:
            outcome, err = 'unknown', f'solver: {e}'
        except StepLimit as e:
            outcome, err = 'steps', str(e)
        except RecursionError as e:
            outcome, err = 'crash', f'RecursionError @ {where(e)}'
        except (Exception, SystemExit) as e:
            outcome, err = 'crash', f'{type(e).__name__}: {e} @ {where(e)}'
        finally:
            ctx.cleanup()
            eng.nondet_sets = False
        st['max_depth'] = max(st['max_depth'], len(eng.trace))
        if outcome == 'abort':
            st['aborted'] += 1
        elif outcome in ('unsupported', 'unknown'):
            st['inconclusive'] += 1
            if len(st['notes']) < 8:
                st['notes'].append(err)
        else:
            st['paths'] += 1
            try:
                if outcome in ('steps', 'crash'):
                    key = (outcome, err)
                    if key not in crashes and len(crashes) < 6:
                        crashes.add(key)
                        m = eng.cur_model()
                        st['cex'].append(dict(kind=outcome, label=outcome, detail=err, values=values_of(eng, m)))
                # every claim made on this path
                for n in ctx.exc_notes:
                    if len(st['notes']) < 8:
                        st['notes'].append('exception: ' + n.strip().splitlines()[-1])
                pend = []
                for label, c in ctx.checks:
                    st['checks'] += 1
                    st['labels'][label] = st['labels'].get(label, 0) + 1
                    if c is True:
                        st['trivial'] += 1
                        continue
                    pend.append((label, c))
                real = [(l, c) for l, c in pend if c is not False]
                bad = [(l, c) for l, c in pend if c is False]
                suspicious = []
                if bad:
                    suspicious = bad
                if real:
                    st['check_queries'] += 1
                    conj = z3.And(*[c for _, c in real])
                    m = eng.feasible(z3.Not(conj))
                    if m is not None:
                        for l, c in real:
                            if not z3.is_true(z3.simplify(m.eval(c, model_completion=True))):
                                suspicious.append((l, c))
                for l, c in suspicious:
                    if l in seen_labels:
                        continue
                    if len(st['cex']) >= max_cex:
                        break
                    seen_labels.add(l)
                    m = eng.cur_model() if c is False else eng.feasible(z3.Not(c))
                    if m is None:
                        continue
                    st['cex'].append(dict(kind='exc' if ctx.exc_notes else 'check', label=l, detail='', values=values_of(eng, m)))
                if not suspicious and outcome == 'done' and nsamp < samples and (st['paths'] % (1 << nsamp) == 0):
                    m = diversify(eng, rng)
                    nsamp += 1
                    st['samples'].append(dict(values=values_of(eng, m),
                                              obs=[[k, C.norm(evaluate(m, v))] for k, v in ctx.obs]))
            except SolverUnknown as e:
                st['inconclusive'] += 1
                if len(st['notes']) < 8:
                    st['notes'].append(f'solver: {e}')
            except PathAbort:
                st['inconclusive'] += 1
        st['max_ticks'] = max(st.get('max_ticks', 0), eng.ticks)
        if len(st['cex']) >= max_cex or outcome == 'steps':
            st['stopped_on_cex'] = True
            break
        if not eng.backtrack():
            break
        if time.time() - t0 > budget_s or st['paths'] + st['inconclusive'] > max_paths:
            st['truncated'] = True
            break
    st['decisions'] = eng.decisions
    st['queries'] = eng.queries
    st['solver_s'] = eng.solver_s
    st['functions'] = sorted(eng.functions)
    st['wall_s'] = time.time() - t0
    return st


def diversify(eng, rng):
    """A model of the path condition with varied input values."""
    m = eng.cur_model()
    n = 0
    names = list(eng.inputs)
    rng.shuffle(names)
    pushed = 0
    t0 = time.time()
    try:
        for name in names[:24]:
            v = eng.inputs[name].e
            c = v >= 1 + rng.choice([0, 1, 2, 5, 12, 40, 300, 5000])
            if not z3.is_true(z3.simplify(m.eval(c, model_completion=True))):
                eng.solver.push()
                eng.solver.add(c)
                if eng.solver.check() != z3.sat:
                    eng.solver.pop()
                    continue
                pushed += 1
                m = eng.solver.model()
            if time.time() - t0 > 2:
                break
    finally:
        for _ in range(pushed):
            eng.solver.pop()
    return m


def where(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/esp_idf_size/' in fn or '/checks/' in fn:
            last = f'{os.path.basename(fn)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return last or '?'
