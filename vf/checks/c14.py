"""C14: per-archive, per-file and per-symbol reports account for exactly what the memory map holds."""
import copy

from .c13 import make
from .common import sc, args

ASSUMPTIONS = ['sizes 0..2^24, differences -2^24..2^24; names are drawn from alphabets in which several share a short name']


def oracle(ctx, m, kind, unify, archive=None):
    """entry key -> (short name, {(type, section): (size, diff)})"""
    out = {}

    def add(key, ab, tn, sn, info):
        e = out.setdefault(key, (ab, {}))[1]
        a, b = e.get((tn, sn), (0, 0))
        e[tn, sn] = (a + info['size'], b + info['size_diff'])

    for tn, t in m['memory_types'].items():
        for sn, s in t['sections'].items():
            sec = s['abbrev_name'] if unify else sn
            for an, a in s['archives'].items():
                aa = a['abbrev_name']
                if kind == 'archives':
                    add(aa if unify else an, aa, tn, sec, a)
                    continue
                if kind == 'symbols' and aa != archive:
                    continue
                for on, o in a['object_files'].items():
                    oa = o['abbrev_name']
                    if kind == 'object_files':
                        add(oa if unify else f'{an}:{on}', oa, tn, sec, o)
                        continue
                    for yn, y in o['symbols'].items():
                        ya = y['abbrev_name']
                        add(ya if unify else f'{an}:{on}:{yn}', ya if unify else yn, tn, sec, y)
    return out


FN = {'archives': 'get_archives_summary', 'object_files': 'get_object_files_summary', 'symbols': 'get_symbols_summary'}


def summary(ctx, kind, fan, unify, diff):
    mm = ctx.mod('memorymap')
    m = make(ctx, fan)
    orig = copy.deepcopy(m)
    archive = ctx.choice('archive', ['lib0.a', 'lib3.a', 'lib6.a', 'lib9.a'] if max(fan) > 4 else ['libx.a', 'liby.a', 'nix.a', 'x.a', 'LIBX.A']) if kind == 'symbols' else None
    keep = ctx.choice('keep', [False, True]) if diff else False
    a = args(unify=unify, diff='/q' if diff else None, show_unchanged=keep, archive_details=archive,
             archives=kind == 'archives', files=kind == 'object_files')
    with ctx.quiet():
        if unify:
            mm.unify(m)
    got, exc = ctx.call(getattr(mm, FN[kind]), m, a)
    exp = oracle(ctx, orig, kind, unify, archive)
    if kind == 'symbols' and not any(x['abbrev_name'] == archive and any(o['symbols'] for o in x['object_files'].values())
                                     for t in orig['memory_types'].values()
                                     for s in t['sections'].values() for x in s['archives'].values()):
        ctx.check('unknown-archive', isinstance(exc, SystemExit) and exc.code not in (0, None), exc)
        return
    ctx.check('works', exc is None, exc)
    if exc is not None:
        return
    columns = [(tn, sn) for tn, t in m['memory_types'].items() for sn in t['sections']]
    ctx.check('known', all(k in exp for k in got), (list(got), list(exp)))
    for key, (ab, cells) in exp.items():
        total = ctx.sum(v for v, _ in cells.values())
        tdiff = ctx.sum(d for _, d in cells.values())
        if not diff or keep:
            ctx.check('reported', key in got, key)
        elif key not in got:
            ctx.check('reported-if-changed', ctx.eq(tdiff, 0), key)
        else:
            ctx.check('reported-only-if-changed', ctx.Or(False, *[ctx.Not(ctx.eq(d, 0)) for _, d in cells.values()]), key)
        if key not in got:
            continue
        e = got[key]
        ctx.check('short', e['abbrev_name'] == ab, (key, e['abbrev_name'], ab))
        ctx.check('total', ctx.And(ctx.eq(e['size'], total), ctx.eq(e['size_diff'], tdiff)), key)
        ctx.check('columns', [(tn, sn) for tn, t in e['memory_types'].items() for sn in t['sections']] == columns, key)
        for tn, t in e['memory_types'].items():
            ctx.check('type', ctx.And(ctx.eq(t['size'], ctx.sum(v for (x, _), (v, _) in cells.items() if x == tn)),
                                      ctx.eq(t['size_diff'], ctx.sum(d for (x, _), (_, d) in cells.items() if x == tn))), (key, tn))
            for sn, s in t['sections'].items():
                v, d = cells.get((tn, sn), (0, 0))
                ctx.check('cell', ctx.And(ctx.eq(s['size'], v), ctx.eq(s['size_diff'], d)), (key, tn, sn))
                ctx.check('section-short', s['abbrev_name'] == m['memory_types'][tn]['sections'][sn]['abbrev_name'])
    ctx.observe('summary', got)


def scenarios(tier):
    out = []
    base = {'archives': [[1, 1, 1, 1, 1], [1, 1, 2, 1, 1], [1, 2, 1, 1, 1], [1, 1, 3, 1, 1], [2, 1, 1, 1, 1], [2, 1, 2, 1, 1], [1, 2, 2, 1, 1]],
            'object_files': [[1, 1, 1, 1, 1], [1, 1, 2, 1, 1], [1, 1, 1, 2, 1], [1, 2, 1, 1, 1], [2, 1, 1, 1, 1], [1, 1, 2, 2, 1]],
            'symbols': [[1, 1, 1, 1, 2], [1, 1, 2, 1, 1], [1, 1, 1, 2, 1], [1, 2, 1, 1, 1], [2, 1, 1, 1, 1], [1, 1, 2, 1, 2], [1, 1, 0, 1, 1]]}
    for fans in base.values():
        fans += [[1, 9, 1, 1, 1], [1, 1, 9, 1, 1], [1, 1, 1, 9, 1], [1, 1, 1, 1, 9], [6, 1, 1, 1, 1]]
    if tier == 'thorough':
        base['archives'] += [[1, 3, 2, 1, 1], [2, 2, 2, 1, 1], [1, 2, 3, 1, 1]]
        base['object_files'] += [[1, 2, 2, 1, 1], [1, 1, 2, 3, 1], [2, 1, 2, 2, 1], [1, 2, 1, 2, 1]]
        base['symbols'] += [[1, 1, 2, 2, 2], [1, 2, 2, 1, 2], [2, 1, 2, 1, 2]]
    for kind, fans in base.items():
        for f in fans:
            for unify in (False, True):
                for diff in (False, True):
                    big = f[1] * f[2] * f[3]
                    if diff and big > 3 and max(f) < 5 and tier != 'thorough':
                        continue
                    out.append(sc(f'{kind}-{"".join(map(str, f))}{"-unify" if unify else ""}{"-diff" if diff else ""}', summary,
                                  f'{kind}: %d memory types, %d sections, %d archives, %d object files, %d symbols per parent, '
                                  'names, sizes and differences symbolic' % tuple(f),
                                  params=dict(kind=kind, fan=f, unify=unify, diff=diff), cost=big + 2 * diff))
    return out
