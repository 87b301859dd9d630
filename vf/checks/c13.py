"""C13: unification merges entries of one short name and loses nothing."""
import copy

from .common import sc, BIG, CHILD

ASSUMPTIONS = ['sizes 0..2^24, differences -2^24..2^24; names are drawn from alphabets in which several share a short name']

NAMES = {
    'memory_types': ['DRAM', 'Flash Code'],
    'sections': [('.dram0.bss', '.bss'), ('.dram1.bss', '.bss'), ('.dram0.data', '.data'), ('.dram0.BSS', '.BSS')],
    'archives': [('a/libx.a', 'libx.a'), ('b/libx.a', 'libx.a'), ('b/liby.a', 'liby.a'), ('c/mylibx.a', 'mylibx.a'), ('(exe)', '(exe)'), ('b/libX.a', 'libX.a')],
    'object_files': [('p/m.o', 'm.o'), ('q/m.o', 'm.o'), ('q/n.o', 'n.o'), ('q/M.o', 'M.o')],
    'symbols': [('f', 'f'), ('F', 'F')],
}
ORDER = ['memory_types', 'sections', 'archives', 'object_files', 'symbols']


def plenty(lv, n):
    """n names, every third of them with the short name of another one."""
    if lv == 'memory_types':
        return [f'{("DRAM", "Flash Code", "IRAM")[i % 3]}{i}' for i in range(n)]
    form = {'sections': ('.dram%d.s%d', '.s%d'), 'archives': ('%d/lib%d.a', 'lib%d.a'), 'object_files': ('%d/o%d.o', 'o%d.o')}.get(lv)
    if lv == 'symbols':
        # a function and an object of one name are different symbols
        return [(f'f{i // 2}' + '()' * (i % 2),) * 2 for i in range(n)]
    return [(form[0] % (i, i - i % 3 // 2), form[1] % (i - i % 3 // 2)) for i in range(n)]


class Few:
    """Numbers of a large memory map: symbolic for the first and last entry of a level, concrete otherwise."""
    def __init__(self, ctx, fan):
        self.ctx, self.fan, self.n = ctx, fan, 0

    def int(self, name, lo, hi):
        if name.startswith('.'):
            self.n += 1
            k = [int(x) for x in name.split('.')[1:-1]]
            if all(x in (0, f - 1) for x, f in zip(k, self.fan)) and len(k) == max(range(5), key=lambda i: self.fan[i]) + 1:
                return self.ctx.int(name, lo, hi)
            return self.n * 7 % 23 * (1 if lo == 0 else (-1, 0, 1)[self.n % 3])
        return self.ctx.int(name, lo, hi)

    def choice(self, *a):
        return self.ctx.choice(*a)

    def data(self, d):
        return self.ctx.data(d)


def make(ctx, fan, pin=False):
    if max(fan) > 4:
        ctx, pin = Few(ctx, fan), True

    def level(i, tag):
        if i == len(ORDER):
            return None
        lv, d = ORDER[i], {}
        names = list(NAMES[lv]) if max(fan) <= 4 else plenty(lv, fan[i])
        if max(fan) <= 4 and sum(fan) > 6 and lv not in ('memory_types', 'symbols'):
            del names[-1]
        for k in range(fan[i]):
            t = f'{tag}.{k}'
            if pin or lv == 'memory_types' or lv == 'symbols' or fan[i] == 1:
                name = names.pop(0)
            else:
                name = ctx.choice(f'{t}.name', names)
                names.remove(name)
            if lv == 'memory_types':
                info = {'size': ctx.int(f'{t}.size', 0, BIG), 'size_diff': ctx.int(f'{t}.sized', -BIG, BIG),
                        'used': ctx.int(f'{t}.used', 0, BIG), 'used_diff': ctx.int(f'{t}.usedd', -BIG, BIG)}
            else:
                name, ab = name
                info = {'abbrev_name': ab, 'size': ctx.int(f'{t}.size', 0, BIG), 'size_diff': ctx.int(f'{t}.sized', -BIG, BIG)}
            if i + 1 < len(ORDER):
                info[ORDER[i + 1]] = level(i + 1, t)
            d[name] = info
        return d

    return ctx.data({'version': '1.0', 'target': 'esp32', 'target_diff': 'esp32', 'image_size': ctx.int('image', 0, BIG),
                     'image_size_diff': ctx.int('imaged', -BIG, BIG), 'project_path': '/p', 'project_path_diff': '/q',
                     'memory_types': level(0, '')})


def flat(m):
    """(type, short names...) -> list of entries at that place."""
    out = {}

    def rec(d, level, path):
        for name, info in d.items():
            p = path + (info['abbrev_name'],)
            out.setdefault(p, []).append(info)
            c = CHILD[level]
            if c:
                rec(info[c], c, p)
    for tn, t in m['memory_types'].items():
        rec(t['sections'], 'sections', (tn,))
    return out


def unified(m):
    out = {}

    def rec(d, level, path):
        for name, info in d.items():
            out[path + (name,)] = (level, info)
            c = CHILD[level]
            if c:
                rec(info[c], c, path + (name,))
    for tn, t in m['memory_types'].items():
        rec(t['sections'], 'sections', (tn,))
    return out


def check_unify(ctx, fan):
    mm = ctx.mod('memorymap')
    m = make(ctx, fan)
    orig = copy.deepcopy(m)
    with ctx.quiet():
        mm.unify(m)
    exp, got = flat(orig), unified(m)
    ctx.check('entries', list(sorted(exp)) == list(sorted(got)), (sorted(exp), sorted(got)))
    for p, (lv, info) in got.items():
        for k in ('size', 'size_diff'):
            ctx.check(f'{lv}.{k}', ctx.eq(info[k], ctx.sum(e[k] for e in exp.get(p, []))), p)
        ctx.check(f'{lv}.short', info['abbrev_name'] == p[-1], p)
        keys = ['abbrev_name', 'size', 'size_diff'] + ([CHILD[lv]] if CHILD[lv] else [])
        ctx.check(f'{lv}.keys', all(isinstance(k, str) for k in info) and set(keys) <= set(info), (p, list(info)))
    ctx.check('types', list(m['memory_types']) == list(orig['memory_types']))
    for tn, t in m['memory_types'].items():
        for k in ('size', 'size_diff', 'used', 'used_diff'):
            ctx.check(f'type.{k}', ctx.eq(t[k], orig['memory_types'][tn][k]), tn)
    for k in ('version', 'target', 'target_diff', 'project_path', 'project_path_diff', 'image_size', 'image_size_diff'):
        ctx.check('meta', ctx.eq(m[k], orig[k]), k)
    again = copy.deepcopy(m)
    with ctx.quiet():
        mm.unify(again)
    ctx.check('idempotent', ctx.deep_eq(again, m))
    ctx.observe('unified', m)


def scenarios(tier):
    fans = [[1, 2, 1, 1, 1], [1, 1, 2, 1, 1], [1, 1, 1, 2, 1], [1, 1, 1, 1, 2], [1, 2, 2, 1, 1], [1, 1, 2, 2, 1], [1, 1, 3, 1, 1],
            [1, 3, 1, 1, 1], [2, 1, 1, 1, 1], [2, 2, 1, 1, 1], [1, 2, 1, 1, 2], [1, 0, 1, 1, 1], [1, 1, 0, 1, 1], [1, 1, 1, 1, 0]]
    fans += [[1, 9, 1, 1, 1], [1, 1, 9, 1, 1], [1, 1, 1, 9, 1], [1, 1, 1, 1, 9], [6, 1, 1, 1, 1], [2, 6, 2, 2, 1]]
    if tier == 'thorough':
        fans += [[1, 2, 2, 2, 1], [1, 2, 2, 2, 2], [1, 3, 2, 1, 1], [1, 1, 3, 2, 1], [1, 1, 4, 1, 1], [2, 2, 2, 1, 1]]
    return [sc('-'.join(map(str, f)), check_unify, '%d memory types, %d sections, %d archives, %d object files, %d symbols per parent, '
               'names and sizes symbolic' % tuple(f), params=dict(fan=f), cost=f[1] * f[2] * f[3] + 1) for f in fans]
