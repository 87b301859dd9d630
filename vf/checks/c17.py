"""C17: filters keep exactly the entries whose shown name matches one of the patterns."""
from .common import sc, args
from . import reports as R

ASSUMPTIONS = ['names and patterns of up to the stated number of symbolic characters; POSIX (case matters)']

PAT = 'ab*?[]!-'
NAME = 'abA-]c![*?'


def concrete(ctx, s, alphabet):
    """Text of s, one character after the other decided by the solver."""
    out = ''
    for i in range(len(s)):
        for c in alphabet:
            if ctx.fork(ctx.eq(s[i], c)):
                out += c
                break
    return out


def parse(pat):
    """Shell pattern -> list of '*' or sets of characters (None: any character)."""
    out, i = [], 0
    while i < len(pat):
        c = pat[i]
        i += 1
        if c == '*':
            out.append('*')
        elif c == '?':
            out.append((True, ()))
        elif c == '[':
            j = i
            if pat[j:j + 1] == '!':
                j += 1
            if pat[j:j + 1] == ']':
                j += 1
            while j < len(pat) and pat[j] != ']':
                j += 1
            if j >= len(pat):
                out.append((False, '['))
                continue
            body = pat[i:j]
            i = j + 1
            neg = body.startswith('!')
            if neg:
                body = body[1:]
            chars, k = set(), 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == '-':
                    chars |= {chr(x) for x in range(ord(body[k]), ord(body[k + 2]) + 1)}
                    k += 3
                else:
                    chars.add(body[k])
                    k += 1
            out.append((neg, tuple(sorted(chars))))
        else:
            out.append((False, c))
    return out


def match(ctx, toks, name):
    """Condition: the whole name matches."""
    n, memo = len(name), {}

    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == len(toks):
            r = j == n
        elif toks[i] == '*':
            r = ctx.Or(go(i + 1, j), go(i, j + 1) if j < n else False)
        elif j == n:
            r = False
        else:
            neg, chars = toks[i]
            hit = ctx.Or(False, *[ctx.eq(name[j], c) for c in chars])
            r = ctx.And(ctx.Not(hit) if neg else hit, go(i + 1, j + 1))
        memo[i, j] = r
        return r
    return go(0, 0)


def entry(name, ab):
    return {'abbrev_name': ab, 'size': 1, 'size_diff': 0, 'memory_types': {}}


def filtered(ctx, npat, plen, nlen, abbrev, shape=None, letters=NAME):
    """shape: the alphabets of the characters of the pattern"""
    mm = ctx.mod('memorymap')
    if shape:
        pats = [''.join(concrete(ctx, ctx.str(f'p{i}_{k}', 1, al), al) if len(al) > 1 else al for k, al in enumerate(shape)) for i in range(npat)]
    else:
        pats = [concrete(ctx, ctx.str(f'p{i}', plen, PAT), PAT) for i in range(npat)]
    short = ctx.str('n', nlen, letters)
    full = ctx.str('f', nlen, letters)
    a = args(filter=pats if npat else None, abbrev=abbrev, no_abbrev=not abbrev)
    entries = {full: entry(full, short)} if not ctx.sym else None
    if ctx.sym:
        from ..core import SymDict
        entries = SymDict()
        entries[full] = entry(full, short)
    got, exc = ctx.call(mm.get_summary_filtered, entries, a)
    ctx.check('no-error', exc is None, repr(exc))
    if exc is not None:
        return
    shown = short if abbrev else full
    want = ctx.Or(False, *[match(ctx, ['*'] + parse(p) + ['*'], shown) for p in pats]) if npat else True
    has = len(got) == 1
    if has:
        ctx.check('kept-matches', want, pats)
    else:
        ctx.check('dropped-does-not-match', ctx.Not(want), pats)
    ctx.observe('has', has)


X, Y = '/b/a/libx.a', '/b/b/liby.a'
OSECS = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', f'{X}(n.o)'), ('.data.u', f'{Y}(m.o)')])]
CRT = [('s0', [f'{X}(m.o)', f'{Y}(m.o)']), ('s1', [f'{Y}(m.o)', f'{X}(n.o)'])]
PATS = [['libx'], ['LIBX'], ['lib?.a'], ['[!x].a'], ['m.o', 'w'], ['a/*'], ['nix'], ['n', 'x.a'], ['*'], ['[a-m].o'], ['.data.[v-w]'], [''], ['m.o,n.o'], ['m.o n.o'], [' m.o'], ['x.a '],
        ['m.o|n.o'], ['^lib'], ['lib.*'], ['libx.a:m'], ['a/libx.a:m'], ['nix', 'nax', 'nux', 'nex', 'm.o', 'y.a'],
        ['libx', 'libx.a', 'x.a', 'm.o', 'v', 'u', 'n.o', 'b/b']]
# directly linked objects, functions, paths which share parts of names
OSECS2 = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', '/b/libx/mylibx.a(n.o)'), ('.data.u', 'CMakeFiles/app.dir/m.o'), ('.data.t', f'{X}(m(1).o)')])]
SYMS2 = [('f', '.data.v'), ('g', '.data.t')]
PATS2 = [['()'], ['f()'], ['(exe)'], ['exe'], ['('], [')'], ['/lib'], ['/libx.a'], ['/libx'], ['lib/'], ['/m.o'], ['dir/m'], ['m(1)'], ['.o'], ['o)'], ['app.dir'], ['./'], ['b/libx'], ['//b']]

# more entries, long names and patterns
LONG = '/home/user/projects/with-a-very-long-name/build/esp-idf/components_of_the_application/libx.a'
OSECS3 = [('.dram0.data', [('.data.v', f'{LONG}(a_rather_long_object_file_name_of_a_module.c.obj)')] +
           [(f'.data.w{i}', f'/b/l{i}/lib{"abcdefghi"[i]}.a(m{i}.o)') for i in range(9)] +
           [(f'.data.a_rather_long_variable_name_{"abcdefghi"[i]}', '/b/a/libx.a(o.o)') for i in range(9)])]
PATS3 = [[LONG[1:-2]], [LONG], [LONG + 'x'], ['a_rather_long_object_file_name_of_a_module.c.obj'], ['a_rather_long_*_[a-d]'], ['a_rather_long_variable_name_[!b-h]'],
         ['user/*/esp-idf/*x.a'], ['lib[a-c].a', 'lib[f-h].a'], ['l?/*.a'], ['l8/', 'm7', 'w6'], [str(i) for i in range(12)], ['*'.join('variable_name')]]


def report(ctx, fmt, kind, odd=False, big=False):
    mm = ctx.mod('memorymap')
    deps = kind == 'dependencies'
    fn = R.project(ctx, 'cur', OSECS3 if big else OSECS2 if odd else OSECS, memo={i: 5 + 2 * i for i in range(1, 18)} if big else None, syms=SYMS2 if odd else [('s0', '.data.v'), ('s1', '.data.u')] if deps else (), crt=CRT if deps else None)
    pats = ctx.choice('patterns', PATS3 if big else PATS2 if odd else PATS)
    full = ctx.flag('full')
    a = args(format=fmt, archives=kind == 'archives', files=kind == 'files', archive_details='libx.a' if kind == 'details' else None,
             archive_dependencies=deps, no_abbrev=full, abbrev=not full, filter=pats)
    m = R.pipeline(ctx, fn, None, a)
    with ctx.quiet():
        if deps:
            exp = ctx.mod('deps').get_archives_dependencies(ctx.mod('mapfile').MapFile(fn), m, mm.get_elf(fn), a)
        else:
            exp = getattr(mm, {'archives': 'get_archives_summary', 'files': 'get_object_files_summary',
                               'details': 'get_symbols_summary'}[kind])(m, a)
    want = [e['abbrev_name'] if not full else k for k, e in exp.items()]
    want = [n for n in want if any(match(ctx, ['*'] + parse(p) + ['*'], n) for p in pats)]
    r = ctx.cli(R.argv(fn, None, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code:
        return
    if fmt == 'dot':
        import re
        got = [l for l in re.findall(r'shape=box, label="([^"]*) \(', r.out)]
    else:
        rows = (R.table_rows if fmt == 'table' else R.csv_rows)(r.out)[1]
        got = [x[0] for x in rows if x[0]]
    ctx.check('entries', sorted(got) == sorted(want), (pats, got, want))


def scenarios(tier):
    out = []
    big = tier == 'thorough'
    for abbrev in (True, False):
        t = 'short' if abbrev else 'full'
        for plen, nlen in ((1, 1), (1, 2), (2, 2), (3, 2), (4, 1), (4, 2)) + (((3, 3), (5, 2), (4, 3)) if big else ()):
            out.append(sc(f'one-{plen}-{nlen}-{t}', filtered, f'1 pattern of {plen} symbolic characters of "{PAT}", name of {nlen} symbolic '
                          f'characters of "{NAME}"', params=dict(npat=1, plen=plen, nlen=nlen, abbrev=abbrev), cost=len(PAT) ** plen * nlen,
                          samples=2))
        for n, shape, letters, k in (('class', ['[', 'ab', ']', 'ab'], 'ab[]', 4), ('range', ['[', 'ab', '-', 'bc', ']'], 'abc-[', 2), ('negated', ['[', '!', 'ab', ']', 'ab'], 'ab![]', 3),
                                     ('blank', ['a ', ' ,', 'a '], 'a ,', 3), ('dot', ['.^$', 'a+|', '.+('], 'a.+|(^$', 2), ('brace', ['{', 'ab', ',}'], 'ab{},', 3)):
            out.append(sc(f'{n}-{t}', filtered, 'pattern of the form %s, name of %d symbolic characters of "%s"' % (' '.join(f'<{x}>' if len(x) > 1 else x for x in shape), k, letters),
                          params=dict(npat=1, plen=0, nlen=k, abbrev=abbrev, shape=shape, letters=letters), samples=2))
        out.append(sc(f'two-{t}', filtered, '2 patterns of 1 symbolic character, name of 2',
                      params=dict(npat=2, plen=1, nlen=2, abbrev=abbrev), cost=2))
        out.append(sc(f'none-{t}', filtered, 'no filter', params=dict(npat=0, plen=0, nlen=2, abbrev=abbrev)))
    for kind in ('archives', 'files', 'details', 'dependencies'):
        for fmt in ('table', 'csv') + (('dot',) if kind == 'dependencies' else ()):
            out.append(sc(f'{kind}-{fmt}', report, f'{fmt} {kind} report, {len(PATS)} filters, short and full names, sizes symbolic',
                          params=dict(fmt=fmt, kind=kind), cost=3))
    for kind in ('archives', 'files', 'details'):
        for fmt in ('table', 'csv'):
            out.append(sc(f'{kind}-{fmt}-odd', report, f'{fmt} {kind} report with functions and directly linked objects, {len(PATS2)} filters, short and full names, sizes symbolic',
                          params=dict(fmt=fmt, kind=kind, odd=True), cost=3))
            out.append(sc(f'{kind}-{fmt}-big', report, f'{fmt} {kind} report of up to 19 entries with long names, {len(PATS3)} filters of up to {len(LONG) + 1} characters, 2 sizes symbolic',
                          params=dict(fmt=fmt, kind=kind, big=True), cost=3))
    return out
