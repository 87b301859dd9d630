"""C15: options that restrict a report remove exactly what they name."""
import copy

from .c06 import project
from .c13 import make
from .common import sc, args, nodes, lookup, CHILD

ASSUMPTIONS = ['sizes 0..2^24, differences -2^24..2^24']


def children(info, lv):
    c = CHILD[lv]
    return info[c] if c else {}


def trim(ctx, fan, opts, diff):
    mm = ctx.mod('memorymap')
    m = make(ctx, fan)
    orig = copy.deepcopy(m)
    keep = ctx.choice('keep', [False, True]) if diff else False
    o = dict(opts)
    if o.get('archive_details'):
        o['archive_details'] = ctx.choice('archive', ['lib0.a', 'lib3.a'] if max(fan) > 4 else ['libx.a', 'liby.a'])
    if ctx.flag('others'):
        # options which do not restrict the depth of a report
        o.update(show_unused=True, use_flash_size=True, abbrev=False, no_abbrev=True, sort_diff=True, sort_reverse=False, filter=['nix'], unify=True,
                 dep_symbols=True, dep_reverse=True)
    with ctx.quiet():
        mm.trim(m, args(diff='/q' if diff else None, show_unchanged=keep, **o))
    depth = {'archives': 'archives', 'files': 'object_files'}.get(next(iter(opts), None), 'symbols')
    order = ['memory_types', 'sections', 'archives', 'object_files', 'symbols']
    left = {p: info for p, _, info in nodes(m)}
    allp = {p for p, _, _ in nodes(orig)}
    ctx.check('subset', set(left) <= allp, left)
    for p, lv, info in nodes(orig):
        if p[:-1] and p[:-1] not in left:
            ctx.check('orphan', p not in left)
            continue
        wanted = order.index(lv) <= order.index(depth)
        if lv == 'archives' and o.get('archive_details') and info['abbrev_name'] != o['archive_details']:
            wanted = False
        d = info['used_diff' if lv == 'memory_types' else 'size_diff']
        if not wanted:
            ctx.check(f'{lv}.dropped', p not in left, p)
        elif not diff or keep:
            ctx.check(f'{lv}.kept', p in left, p)
        elif p in left:
            # a change is a difference of the entry itself or of something below it
            ds = [d] + [i['size_diff'] for q, _, i in nodes(orig) if q[:len(p)] == p and len(q) > len(p)]
            if lv == 'memory_types':
                ds.append(info['size_diff'])
            ctx.check(f'{lv}.unchanged-dropped', ctx.Or(False, *[ctx.Not(ctx.eq(x, 0)) for x in ds]), p)
        else:
            ctx.check(f'{lv}.changed-kept', ctx.eq(d, 0), p)
        if p in left:
            for k, v in left[p].items():
                if not isinstance(v, dict):
                    ctx.check(f'{lv}.same', ctx.eq(v, info[k]), (p, k))
    ctx.observe('left', sorted(left))


def unused(ctx, fan):
    mm = ctx.mod('memorymap')
    m = make(ctx, fan)
    orig = copy.deepcopy(m)
    with ctx.quiet():
        mm.remove_unused(m)
    for tn, t in orig['memory_types'].items():
        got = m['memory_types'].get(tn)
        if got is None:
            ctx.check('used-kept', ctx.eq(t['used'], 0), tn)
            continue
        ctx.check('unused-dropped', ctx.Not(ctx.eq(t['used'], 0)), tn)
        want = [s for s, i in t['sections'].items() if i['archives']]
        ctx.check('sections', list(got['sections']) == want, (tn, list(got['sections'])))
        ctx.check('used', ctx.eq(got['used'], ctx.sum(t['sections'][s]['size'] for s in want)), tn)
        ctx.check('size', ctx.eq(got['size'], t['size']), tn)
        for s in want:
            if s in got['sections']:
                ctx.check('contents', ctx.deep_eq(got['sections'][s], t['sections'][s]), (tn, s))
    ctx.check('others', all(t in orig['memory_types'] for t in m['memory_types']))
    ctx.observe('types', list(m['memory_types']))


TYPES = ['Flash Code', 'Flash Data', 'Flash', 'DRAM', 'DIRAM', 'IRAM', 'RTC FAST', 'CACHE_D', 'External RAM', 'SPI DRAM', 'LP SRAM']


def flash(ctx):
    mm = ctx.mod('memorymap')
    m = make(ctx, [1, 1, 1, 1, 1])
    t = m['memory_types'].pop('DRAM')
    name = ctx.choice('type', TYPES)
    m['memory_types'][name] = t
    orig = copy.deepcopy(m)
    with ctx.quiet():
        mm.ignore_flash_size(m)
    ctx.check('types', list(m['memory_types']) == [name])
    g, o = m['memory_types'][name], orig['memory_types'][name]
    ctx.check('total', ctx.eq(g['size'], 0 if 'Flash' in name else o['size']), name)
    ctx.check('used', ctx.eq(g['used'], o['used']))
    ctx.check('sections', ctx.deep_eq(g['sections'], o['sections']))


def scenarios(tier):
    out = []
    large = [[1, 9, 1, 1, 1], [1, 1, 9, 1, 1], [1, 1, 1, 9, 1], [1, 1, 1, 1, 9], [6, 1, 1, 1, 1]]
    small = [[1, 2, 1, 1, 1], [1, 1, 2, 1, 1], [1, 1, 1, 2, 1], [1, 1, 1, 1, 2], [2, 1, 1, 1, 1]]
    for name, opts in (('all', {}), ('archives', dict(archives=True)), ('files', dict(files=True)), ('details', dict(archive_details=True))):
        for f in small + large:
            for diff in (False, True):
                out.append(sc(f'trim-{name}-{"".join(map(str, f))}{"-diff" if diff else ""}', trim,
                              'memory map with %d/%d/%d/%d/%d entries per parent, names, sizes and differences symbolic' % tuple(f),
                              params=dict(fan=f, opts=opts, diff=diff), cost=3 if diff else 1))
    for f in large[:1] + large[-1:] + [[1, 9, 0, 1, 1]] + list(([1, 1, 1, 1, 1], [2, 1, 1, 1, 1], [1, 0, 1, 1, 1], [1, 2, 0, 1, 1], [2, 1, 0, 1, 1], [3, 1, 1, 1, 1][:0] or [1, 2, 1, 1, 1])):
        out.append(sc(f'unused-{"".join(map(str, f))}', unused, 'memory map with %d types, %d sections, %d archives, sizes symbolic'
                      % tuple(f[:3]), params=dict(fan=f)))
    out.append(sc('flash', flash, '1 memory type of any of %d names, sizes symbolic' % len(TYPES)))
    return out
