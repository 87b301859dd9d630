"""C16: reports are ordered by the chosen figure."""
import copy

from .c13 import make
from .common import sc, args, CHILD
from . import reports as R
from .c18 import TEN

ASSUMPTIONS = ['entries with equal figures may come in any order; rows that show no figure in the chosen column are not ordered']

X, Y, Z = '/b/x/libx.a', '/b/y/liby.a', '/b/z/libz.a'
TYPES = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.iram0.text', [('.text.f', f'{Y}(n.o)')]), ('.flash.rodata', [('.rodata.c', f'{Z}(k.o)')])]
SECTIONS = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.dram0.bss', [('.bss.z', f'{Y}(n.o)')]), ('.iram0.text', [('.text.f', f'{X}(m.o)')])]
FILES3 = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', f'{X}(n.o)'), ('.data.u', f'{X}(k.o)')])]
ARCHS = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', f'{Y}(n.o)'), ('.data.u', f'{Z}(k.o)')])]
MIXED = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', f'{Y}(n.o)')]), ('.dram0.bss', [('.bss.z', f'{Y}(n.o)')])]
NEST = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.dram0.bss', [('.bss.v', f'{X}(m.o)')])]
SPREAD = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.iram0.text', [('.text.v', f'{X}(m.o)')])]
WIDE = {'archives': [(o, [(f'.{o[7:]}.v', f'{X}(m.o)'), (f'.{o[7:]}.w', f'{Y}(n.o)')]) for o in ('.dram0.data', '.dram0.bss')],
        'files': [(o, [(f'.{o[7:]}.v', f'{X}(m.o)'), (f'.{o[7:]}.w', f'{X}(n.o)')]) for o in ('.dram0.data', '.dram0.bss')]}
WIDE['details'] = WIDE['files']
COLS = ['used', 'pct', 'remain', 'total']
HEAD = ['Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]']


def monotone(ctx, tag, keys, descending, info=None):
    """keys: figures in the printed order."""
    for a, b in zip(keys, keys[1:]):
        ctx.check(tag, (a >= b) if descending else (a <= b), info)


def keyed(ctx, x, t, top, col, diff):
    """Figure of column col for a memory type or section; None where the report shows none."""
    if not top and col in ('remain', 'total'):
        return None
    if col == 'used':
        return (x['used_diff'] if diff else x['used']) if top else (x['size_diff'] if diff else x['size'])
    if ctx.fork(ctx.eq(t['size'], 0)):
        return None
    if col == 'total':
        return t['size_diff'] if diff else t['size']
    if col == 'remain':
        return t['size_diff'] - t['used_diff'] if diff else t['size'] - t['used']
    u, ud = (x['used'], x['used_diff']) if top else (x['size'], x['size_diff'])
    pct = u * 100 / t['size']
    if not diff:
        return pct
    old = t['size'] - t['size_diff']
    if ctx.fork(ctx.eq(old, 0)):
        return pct
    return pct - (u - ud) * 100 / old


def summary(ctx, fmt, cur, ref, cols, sort_diff=False, show=()):
    fn = R.project(ctx, 'cur', cur)
    rf = R.project(ctx, 'ref', ref) if ref else None
    ci, spec = ctx.choice('column', cols)
    a = args(format=fmt, diff=rf, sort=spec, sort_diff=sort_diff, sort_reverse=ctx.choice('desc', [True, False]), show_unchanged=True)
    for k in show:
        a[k] = True
    m = R.pipeline(ctx, fn, rf, a)
    r = ctx.cli(R.argv(fn, rf, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code:
        return
    head, rows = (R.table_rows if fmt == 'table' else R.csv_rows)(r.out)
    order, tn = [], None
    for row in rows:
        if row[0] in m['memory_types']:
            tn = row[0]
            order.append((tn, []))
        else:
            order[-1][1].append(row[0])
    ctx.check('types', sorted(t for t, _ in order) == sorted(m['memory_types']), order)
    col = COLS[ci]
    keys = [keyed(ctx, m['memory_types'][t], m['memory_types'][t], True, col, sort_diff) for t, _ in order]
    monotone(ctx, 'types-order', [k for k in keys if k is not None], a['sort_reverse'], (spec, order))
    for t, secs in order:
        T = m['memory_types'][t]
        by = {s['abbrev_name']: s for s in T['sections'].values()}
        ctx.check('sections', sorted(secs) == sorted(by), (t, secs))
        keys = [keyed(ctx, by[s], T, False, col, sort_diff) for s in secs if s in by]
        monotone(ctx, 'sections-order', [k for k in keys if k is not None], a['sort_reverse'], (spec, t, secs))


FN = {'archives': 'get_archives_summary', 'files': 'get_object_files_summary', 'details': 'get_symbols_summary'}


def entries(ctx, fmt, kind, cur, ref, cols, sort_diff=False, few=False):
    """Per-archive, per-file and per-symbol tables."""
    mm = ctx.mod('memorymap')
    fixed = [{i: 4 + 5 * i * i % 31 * (j + 1) for i in range(1 - j, sum(len(x) for _, x in o or ()) - 1 + j)} if few else None for j, o in enumerate((cur, ref))]
    fn = R.project(ctx, 'cur', cur, memo=fixed[0])
    rf = R.project(ctx, 'ref', ref, memo=fixed[1]) if ref else None
    ci, spec = ctx.choice('column', cols)
    a = args(format=fmt, diff=rf, sort=spec, sort_diff=sort_diff, sort_reverse=ctx.choice('desc', [True, False]), show_unchanged=True,
             archives=kind == 'archives', files=kind == 'files', archive_details='libx.a' if kind == 'details' else None)
    m = R.pipeline(ctx, fn, rf, a)
    with ctx.quiet():
        exp = getattr(mm, FN[kind])(m, a)
    by = {e['abbrev_name']: e for e in exp.values()}
    r = ctx.cli(R.argv(fn, rf, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code:
        return
    k = 'size_diff' if sort_diff else 'size'
    if fmt == 'json2':
        got = ctx.loads(r.out)
        monotone(ctx, 'json2-order', [e[k] for e in got.values()], a['sort_reverse'], list(got))
        for e in got.values():
            monotone(ctx, 'json2-types', [t[k] for t in e['memory_types'].values()], a['sort_reverse'])
            for t in e['memory_types'].values():
                monotone(ctx, 'json2-sections', [s[k] for s in t['sections'].values()], a['sort_reverse'])
        return
    head, rows = (R.table_rows if fmt == 'table' else R.csv_rows)(r.out)
    names = [x[0] for x in rows]
    ctx.check('rows', sorted(names) == sorted(by), names)
    keys = []
    for n in names:
        if n in by:
            e = by[n]
            cells = [e] + [c for t in e['memory_types'].values() for c in [t] + list(t['sections'].values())]
            keys.append(cells[ci][k])
    monotone(ctx, 'order', keys, a['sort_reverse'], (spec, names))


def tree(ctx, fan):
    """The public sort of a whole memory map."""
    mm = ctx.mod('memorymap')
    m = make(ctx, fan, pin=True)
    orig = copy.deepcopy(m)
    diff = ctx.choice('diff', [False, True])
    desc = ctx.choice('desc', [True, False])
    with ctx.quiet():
        mm.sort(m, args(sort_diff=diff, sort_reverse=desc))

    def rec(d, o, level):
        k = ('used' if level == 'memory_types' else 'size') + ('_diff' if diff else '')
        ctx.check('same-entries', sorted(d) == sorted(o), list(d))
        monotone(ctx, f'{level}-order', [i[k] for i in d.values()], desc, list(d))
        for n, i in d.items():
            for key, v in i.items():
                if not isinstance(v, dict):
                    ctx.check('same-values', ctx.eq(v, o[n][key]), (n, key))
            if CHILD[level]:
                rec(i[CHILD[level]], o[n][CHILD[level]], CHILD[level])
    rec(m['memory_types'], orig['memory_types'], 'memory_types')
    ctx.observe('sorted', m)


def printed(ctx, fmt, cur):
    """json2 summary and tree reports are ordered by size."""
    fn = R.project(ctx, 'cur', cur)
    a = args(format=fmt, sort_reverse=ctx.choice('desc', [True, False]))
    r = ctx.cli(R.argv(fn, None, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code:
        return
    if fmt == 'json2':
        got = ctx.loads(r.out)
        monotone(ctx, 'layout', [t['used'] for t in got['layout']], a['sort_reverse'], got)
        for t in got['layout']:
            monotone(ctx, 'parts', [s['size'] for s in t['parts'].values()], a['sort_reverse'], t)
        return
    groups = {}
    for p in R.tree_rows(r.out):
        groups.setdefault((p[:-1], len(p)), []).append(ctx.nums(p[-1].split(' / ')[0])[-1])
    for g, keys in groups.items():
        monotone(ctx, 'tree', keys, a['sort_reverse'], g)


def invalid(ctx, kind):
    fn = R.project(ctx, 'cur', MIXED)
    n = 4 if kind == 'summary' else 4
    spec = ctx.choice('column', ['0', str(n + 1), str(-n - 1), '99', '-99', 'nix', 'Used', '', '1.0', 'bytes'] +
                      (['used [bytes]', 'Used [bytes', 'Memory Type/Section'] if kind == 'summary' else ['total size', 'Total', 'diram']))
    fmt = ctx.choice('fmt', ['table', 'csv'])
    a = args(format=fmt, sort=spec, archives=kind == 'archives', files=kind == 'files', archive_details='libx.a' if kind == 'details' else None)
    r = ctx.cli(R.argv(fn, None, a))
    ctx.check('refused', r.code not in (0, None) and (r.exc is None or isinstance(r.exc, SystemExit)), r)
    ctx.check('no-report', r.out.strip() == '', r.out[:200])


def scenarios(tier):
    out = []
    idx = [(i, str(i + 1)) for i in range(4)]
    neg = [(i, str(i - 4)) for i in range(4)]
    nam = [(i, h) for i, h in enumerate(HEAD)]
    ref = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.iram0.text', [('.text.f', f'{Y}(n.o)')])]
    for fmt in ('table', 'csv'):
        for cn, cols in (('index', idx), ('negative', neg), ('name', nam)):
            out.append(sc(f'summary-{fmt}-{cn}', summary, f'{fmt} summary of 3 memory types, any column by {cn}, both directions, sizes '
                          'symbolic', params=dict(fmt=fmt, cur=TYPES, ref=None, cols=cols), cost=3))
            out.append(sc(f'sections-{fmt}-{cn}', summary, f'{fmt} summary of 3 sections, any column by {cn}, both directions, sizes '
                          'symbolic', params=dict(fmt=fmt, cur=SECTIONS, ref=None, cols=cols), cost=3))
        out.append(sc(f'summary-{fmt}-flash', summary, f'{fmt} summary with flash totals and unused types', cost=6,
                      params=dict(fmt=fmt, cur=TYPES, ref=None, cols=idx, show=('use_flash_size', 'show_unused'))))
        out.append(sc(f'summary-{fmt}-diff', summary, f'{fmt} comparison sorted by difference', cost=8,
                      params=dict(fmt=fmt, cur=TYPES[:2], ref=ref, cols=idx + [(0, '-4'), (1, '-3'), (2, HEAD[2]), (0, HEAD[0])], sort_diff=True)))
        out.append(sc(f'summary-{fmt}-diff-size', summary, f'{fmt} comparison sorted by size', cost=8,
                      params=dict(fmt=fmt, cur=TYPES[:2], ref=ref, cols=idx)))
        for kind, cur in (('archives', ARCHS), ('files', FILES3), ('details', FILES3)):
            cols = [(0, '1'), (1, '2'), (2, '3'), (0, 'Total Size'), (1, 'DIRAM'), (2, '.data'), (2, '-1'), (0, '-3')]
            out.append(sc(f'{kind}-{fmt}', entries, f'{fmt} {kind} report of 3 entries, any column, both directions', cost=4,
                          params=dict(fmt=fmt, kind=kind, cur=cur, ref=None, cols=cols)))
            mixed = [(0, '1'), (1, '2'), (2, '3'), (3, '4'), (3, '-1')]
            out.append(sc(f'{kind}-{fmt}-mixed', entries, f'{fmt} {kind} report, 2 sections, any column', cost=4,
                          params=dict(fmt=fmt, kind=kind, cur=MIXED, ref=None, cols=mixed)))
            out.append(sc(f'{kind}-{fmt}-diff', entries, f'{fmt} {kind} comparison sorted by difference', cost=8,
                          params=dict(fmt=fmt, kind=kind, cur=MIXED[:1], ref=ARCHS if kind != 'details' else FILES3[:1], cols=[(0, '1'), (2, '3'), (2, '-1'), (0, '-3'), (1, 'DIRAM')],
                                      sort_diff=True)))
    for kind in ('archives', 'files', 'details'):
        for fmt in ('table', 'csv', 'json2'):
            for sd in (False, True):
                out.append(sc(f'{kind}-{fmt}-ten' + '-diff' * sd, entries, f'{fmt} {kind} ' + ('comparison' if sd else 'report') + ' of 10 entries, 2 of symbolic size', cost=3,
                              params=dict(fmt=fmt, kind=kind, cur=TEN[kind], ref=[(o, s[2:]) for o, s in TEN[kind]] if sd else None, cols=[(2, '3')],
                                          sort_diff=sd, few=True)))
    for kind, cur in (('archives', ARCHS), ('files', FILES3), ('details', FILES3)):
        for fmt in ('table', 'csv'):
            out.append(sc(f'{kind}-{fmt}-diff-wide', entries, f'{fmt} {kind} comparison of 2 sections sorted by difference, any column', cost=8,
                          params=dict(fmt=fmt, kind=kind, cur=WIDE[kind], ref=WIDE[kind], cols=[(2, '3'), (3, '4'), (3, '-1')], sort_diff=True)))
        out.append(sc(f'{kind}-json2', entries, f'json2 {kind} report of 3 entries', cost=4,
                      params=dict(fmt='json2', kind=kind, cur=cur, ref=None, cols=[(0, '1')])))
        out.append(sc(f'{kind}-json2-mixed', entries, f'json2 {kind} report, 2 sections', cost=4,
                      params=dict(fmt='json2', kind=kind, cur=MIXED, ref=None, cols=[(0, '1')])))
        out.append(sc(f'{kind}-json2-diff', entries, f'json2 {kind} comparison sorted by difference', cost=8,
                      params=dict(fmt='json2', kind=kind, cur=MIXED[:1], ref=MIXED[:1], cols=[(0, '1')], sort_diff=True)))
        out.append(sc(f'{kind}-json2-diff-sections', entries, f'json2 {kind} comparison of 2 sections sorted by difference', cost=8,
                      params=dict(fmt='json2', kind=kind, cur=NEST, ref=NEST, cols=[(0, '1')], sort_diff=True)))
        out.append(sc(f'{kind}-json2-diff-types', entries, f'json2 {kind} comparison of 2 memory types sorted by difference', cost=8,
                      params=dict(fmt='json2', kind=kind, cur=SPREAD, ref=SPREAD, cols=[(0, '1')], sort_diff=True)))
    for f in ([2, 1, 1, 1, 1], [1, 2, 1, 1, 1], [1, 3, 1, 1, 1], [1, 1, 3, 1, 1], [1, 1, 1, 3, 1], [1, 1, 1, 1, 2], [2, 2, 1, 1, 1], [1, 2, 2, 1, 1], [1, 9, 1, 1, 1], [1, 1, 9, 1, 1], [1, 1, 1, 9, 1], [1, 1, 1, 1, 9], [6, 1, 1, 1, 1]):
        out.append(sc('map-' + ''.join(map(str, f)), tree, 'memory map with %d/%d/%d/%d/%d entries per parent, sizes and differences symbolic'
                      % tuple(f), params=dict(fan=f), cost=3))
    for fmt in ('json2', 'tree'):
        for n, cur in (('types', TYPES), ('sections', SECTIONS), ('archives', ARCHS), ('files', FILES3)):
            out.append(sc(f'{fmt}-{n}', printed, f'{fmt} summary of 3 {n}', params=dict(fmt=fmt, cur=cur)))
    for kind in ('summary', 'archives', 'files', 'details'):
        out.append(sc(f'invalid-{kind}', invalid, f'{kind} report, 13 columns that do not exist', params=dict(kind=kind)))
    return out
