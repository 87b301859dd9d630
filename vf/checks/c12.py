"""C12: comparing two projects."""
from .common import sc, args, nodes, lookup, BIG

ASSUMPTIONS = ['sizes are integers 0..2^24; names are drawn from small alphabets so that entries may coincide or differ']

# shape: memory types -> sections -> archives -> objects -> symbols; names chosen symbolically
NAMES = {
    'memory_types': ['DRAM', 'Flash Code', 'IRAM'],
    'sections': ['.dram0.bss', '.dram0.data', '.dram1.bss'],
    'archives': ['a/libx.a', 'b/liby.a', 'c/libx.a'],
    'object_files': ['m.o', 'n.o', 'x/m.o'],
    'symbols': ['f()', 'v', 'f'],
}
ORDER = ['memory_types', 'sections', 'archives', 'object_files', 'symbols']


def make(ctx, who, fan, chosen, width):
    """A memory map with fan[level] entries per parent; at the levels in `chosen` names are a symbolic choice."""
    cnt = [0]

    def level(i, tag):
        if i == len(ORDER):
            return None
        lv = ORDER[i]
        d = {}
        names = NAMES[lv][:width] if width <= 4 else [f'{NAMES[lv][0]}{x if who == "cur" else x * 2}' for x in range(width)]
        for k in range(fan[i]):
            t = f'{tag}.{k}'
            if lv in chosen:
                name = ctx.choice(f'{who}{t}.name', names)
                names.remove(name)
            else:
                name = names.pop(0)
            cnt[0] += 1
            size = ctx.int(f'{who}{t}.size', 0, BIG)
            if lv == 'memory_types':
                info = {'size': size, 'size_diff': 0, 'used': ctx.int(f'{who}{t}.used', 0, BIG), 'used_diff': 0}
            else:
                info = {'abbrev_name': name.rsplit('/', 1)[-1], 'size': size, 'size_diff': 0}
            if i + 1 < len(ORDER):
                info[ORDER[i + 1]] = level(i + 1, t)
            d[name] = info
        return d

    return ctx.data({'version': '1.0', 'target': 'esp32', 'target_diff': '', 'image_size': ctx.int(who + '.image', 0, BIG),
                     'image_size_diff': 0, 'project_path': '/p/' + who, 'project_path_diff': '',
                     'memory_types': level(0, '')})


def verify(ctx, cur, ref, d):
    mm = ctx.mod('memorymap')
    ctx.check('image_diff', ctx.eq(d['image_size_diff'], cur['image_size'] - ref['image_size']))
    ctx.check('image', ctx.eq(d['image_size'], cur['image_size']))
    ctx.check('ids', d['target_diff'] == ref['target'] and d['project_path_diff'] == ref['project_path']
              and d['target'] == cur['target'] and d['project_path'] == cur['project_path'])
    pc = {p for p, _, _ in nodes(cur)}
    pr = {p for p, _, _ in nodes(ref)}
    pd = [p for p, _, _ in nodes(d)]
    ctx.check('union', set(pd) == pc | pr and len(pd) == len(set(pd)), (pd, pc, pr))
    for p, lv, info in nodes(d):
        c, r = lookup(cur, p), lookup(ref, p)
        keys = ('size', 'used') if lv == 'memory_types' else ('size',)
        for k in keys:
            cv = c[k] if c is not None else 0
            rv = r[k] if r is not None else 0
            ctx.check(f'{lv}.{k}', ctx.eq(info[k], cv), (p, k))
            ctx.check(f'{lv}.{k}_diff', ctx.eq(info[k + '_diff'], cv - rv), (p, k))
        if lv != 'memory_types':
            ctx.check(f'{lv}.abbrev', info['abbrev_name'] == (c if c is not None else r)['abbrev_name'])


def two(ctx, fan_c, fan_r, chosen):
    mm = ctx.mod('memorymap')
    width = max(2, *fan_c, *fan_r)
    cur, ref = make(ctx, 'cur', fan_c, chosen, width), make(ctx, 'ref', fan_r, chosen, width)
    import copy
    c0, r0 = copy.deepcopy(cur), copy.deepcopy(ref)
    with ctx.quiet():
        d = mm.diff(cur, ref)
    verify(ctx, c0, r0, d)
    ctx.check('inputs-untouched', ctx.And(ctx.deep_eq(cur, c0), ctx.deep_eq(ref, r0)))
    # nothing of the result is shared with an input
    ctx.observe('diff', d)


def scenarios(tier):
    out, big = [], tier == 'thorough'
    base = [1, 1, 1, 1, 1]
    for i, lv in enumerate(ORDER):
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 1), (2, 3)) + (((3, 2), (3, 3)) if big else ()):
            fc, fr = list(base), list(base)
            fc[i], fr[i] = n, m
            out.append(sc(f'{lv}-{n}v{m}', two, f'one entry per level, {n} vs {m} {lv} with symbolic names and sizes',
                          params=dict(fan_c=fc, fan_r=fr, chosen=[lv])))
    out.append(sc('all-names', two, 'one entry per level, all names symbolic', params=dict(fan_c=base, fan_r=base, chosen=ORDER)))
    for i in range(5):
        fc, fr = list(base), list(base)
        fc[i], fr[i] = 9, 8
        out.append(sc(f'{ORDER[i]}-9v8', two, f'9 vs 8 {ORDER[i]}', params=dict(fan_c=fc, fan_r=fr, chosen=[])))
    for i in range(1, 5):
        for n, m in ((0, 1), (1, 0), (0, 0)):
            fc, fr = list(base), list(base)
            fc[i], fr[i] = n, m
            out.append(sc(f'{ORDER[i]}-{n}v{m}', two, f'{n} vs {m} {ORDER[i]}, the name of the parent symbolic', params=dict(fan_c=fc, fan_r=fr, chosen=[ORDER[i - 1]])))
    for i in range(1, 5):
        fc, fr = list(base), list(base)
        fc[i - 1] = fr[i - 1] = fr[i] = 2
        out.append(sc(f'{ORDER[i - 1]}-{ORDER[i]}', two, f'2 {ORDER[i - 1]} per parent, 1 vs 2 {ORDER[i]}, their names symbolic', cost=4,
                      params=dict(fan_c=fc, fan_r=fr, chosen=[ORDER[i]] + ([ORDER[i - 1]] if big else []))))
    return out
