"""C08: ELF symbols are attributed to the object file whose section contains them."""
from .common import (sc, elf_bytes, map_text, isec_lines, fill_line, write_project, SHT_PROGBITS, STT_FUNC, STT_OBJECT)

ASSUMPTIONS = ['input sections of the map do not overlap']

BASE = 0x40080000


def attribute(ctx, layout, nsym, gaps, names):
    """layout: for every input section (output section index, archive, object file, printed name)."""
    cur = BASE
    bodies = {}
    secs = []
    first = {}
    for i, (o, ar, ob, nm) in enumerate(layout):
        s = ctx.int(f's{i}', 1 if i else 0, 1 << 10)
        bodies.setdefault(o, [])
        first.setdefault(o, cur)
        bodies[o] += isec_lines(ctx, nm, cur, s, f'{ar}({ob})')
        secs.append((cur, s, ar, ob, nm, o))
        cur = cur + s
        if i in gaps:
            f = ctx.int(f'f{i}', 1, 64)
            bodies[o].append(fill_line(ctx, cur, f))
            cur = cur + f
    ends = {}
    for o in bodies:
        nxt = [first[p] for p in first if p == o + 1]
        ends[o] = nxt[0] if nxt else cur
    onames = ['.iram0.text', '.iram0.data', '.iram0.bss']
    osecs = [(onames[o], first[o], ends[o] - first[o], bodies[o]) for o in bodies]
    for o in bodies:
        ctx.assume(ends[o] > first[o])
    if ctx.flag('swap'):
        osecs = osecs[::-1]
    syms, want = [], []
    for k in range(nsym):
        v, n = ctx.int(f'v{k}', BASE - 256, BASE + 4096), ctx.int(f'n{k}', 0, 1 << 10)
        info = ctx.int(f'info{k}', 0, 255) if k == 0 else ctx.choice(f'info{k}', [STT_FUNC, STT_OBJECT | 16, 3])
        syms.append((names[k], v, n, info, ctx.int(f'shndx{k}', 0, 65535) if k == 0 else 1, ctx.int(f'other{k}', 0, 255) if k == 0 else 0))
    text = map_text(ctx, [('seg', BASE, 0x20000, 'xrw')], osecs)
    hdrs = [(onames[o], SHT_PROGBITS, 2, first[o], ends[o] - first[o]) for o in bodies]
    fn = write_project(ctx, text, elf_bytes(ctx, hdrs, syms))
    mm = ctx.mod('memorymap')
    m, exc = ctx.call(mm.get, fn)

    live = [(a, s, ar, ob, nm, o) for a, s, ar, ob, nm, o in secs]
    inside = [[None] * len(live) for _ in syms]
    bad = []
    for k, (_, v, n, info, _, _) in enumerate(syms):
        t = info % 16
        isf = ctx.eq(t, STT_FUNC)
        cnt = ctx.And(n > 0, ctx.Or(isf, ctx.eq(t, STT_OBJECT)))
        # the first section that ends behind the symbol's address
        prev = True
        for i, (a, s, *_r) in enumerate(live):
            here = ctx.And(cnt, prev, s > 0, v < a + s)
            inside[k][i] = (ctx.And(here, v >= a), isf, n)
            bad.append(ctx.And(here, v + n > a + s))
            prev = ctx.And(prev, ctx.Not(ctx.And(s > 0, v < a + s)))
        bad.append(ctx.And(cnt, prev))
    error = ctx.Or(*bad)
    ctx.check('error-kind', exc is None or isinstance(exc, mm.MemMapException), repr(exc))
    ctx.check('error', ctx.eq(error, exc is not None) if ctx.sym and not isinstance(error, bool) else error == (exc is not None), repr(exc))
    if exc is not None:
        ctx.observe('err', type(exc).__name__)
        return
    tree = {}
    for t in m['memory_types'].values():
        for sn, s in t['sections'].items():
            for an, a in s['archives'].items():
                for on, o in a['object_files'].items():
                    tree[sn, an, on] = o
    expect = {}
    for i, (a, s, ar, ob, nm, o) in enumerate(live):
        key = (onames[o], ar, ob)
        e = expect.setdefault(key, {})
        anyin = ctx.Or(False, *[inside[k][i][0] for k in range(nsym)])
        e[nm] = e.get(nm, 0) + ctx.ite(anyin, 0, s)
        for k in range(nsym):
            c, isf, n = inside[k][i]
            f, d = names[k] + '()', names[k]
            e[f] = e.get(f, 0) + ctx.ite(ctx.And(c, isf), n, 0)
            e[d] = e.get(d, 0) + ctx.ite(ctx.And(c, ctx.Not(isf)), n, 0)
    obs = []
    for key, e in expect.items():
        o = tree.get(key)
        ctx.check('object-size', ctx.eq(o['size'] if o else 0, ctx.sum(s for a, s, ar, ob, nm, oo in live if (onames[oo], ar, ob) == key)))
        for nm, sz in e.items():
            g = o['symbols'].get(nm) if o else None
            ctx.check('symbol', ctx.eq(g['size'] if g else 0, sz), (key, nm, g, sz))
        if o:
            ctx.check('only', all(nm in e for nm in o['symbols']), (key, list(o['symbols'])))
            obs.append([key, sorted([k, v['size']] for k, v in o['symbols'].items())])
    ctx.check('objects', all(k in expect for k in tree), list(tree))
    ctx.observe('tree', obs)


NAMES = ['', 'f', 'foo()', '.L1', '$d', '_ZN3fooEv', 'foo.isra.0', 'foo.constprop.0.part.1', 'foo@plt', '__asm_f', 'a b', 'COMMON', '.text.x', 'x.obj', '__func__.12', 'ö', 'n' * 300]


def naming(ctx):
    """The name of a symbol does not matter."""
    one, two = ctx.choice('one', NAMES), ctx.choice('two', ['f', '.text.x'])
    t1, t2 = ctx.choice('t1', [STT_FUNC, STT_OBJECT]), ctx.choice('t2', [STT_FUNC, STT_OBJECT])
    s, n1, n2 = ctx.int('s', 2, 1 << 10), ctx.int('n1', 1, 1 << 10), ctx.int('n2', 1, 1 << 10)
    ctx.assume(n1 + n2 <= s)
    text = map_text(ctx, [('seg', BASE, 0x20000, 'xrw')], [('.iram0.text', BASE, s, isec_lines(ctx, '.text.x', BASE, s, 'liba.a(x.obj)'))])
    fn = write_project(ctx, text, elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, 2, BASE, s)],
                                            [(one, BASE, n1, t1, 1), (two, BASE + n1, n2, t2, 1)]))
    m, exc = ctx.call(ctx.mod('memorymap').get, fn)
    ctx.check('no-error', exc is None, repr(exc))
    if exc is None:
        want = {}
        for name, t, n in ((one, t1, n1), (two, t2, n2)):
            k = name + '()' * (t == STT_FUNC)
            want[k] = want.get(k, 0) + n
        got = m['memory_types']['IRAM']['sections']['.iram0.text']['archives']['liba.a']['object_files']['x.obj']['symbols']
        ctx.check('symbols', sorted(got) == sorted(want), (list(got), list(want)))
        ctx.check('sizes', ctx.And(*[ctx.eq(got[k]['size'], want[k]) for k in want if k in got]))
        ctx.check('abbrev', all(v['abbrev_name'] == k for k, v in got.items()))


def nosections(ctx):
    """Output sections without input sections."""
    n = ctx.int('n', 1, 100)
    v, k = ctx.int('v', BASE - 100, BASE + 200), ctx.int('k', 0, 50)
    text = map_text(ctx, [('seg', BASE, 0x20000, 'xrw')], [('.iram0.text', BASE, n, [])])
    fn = write_project(ctx, text, elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, 2, BASE, n)],
                                            [('f', v, k, STT_FUNC, 1)] if ctx.flag('sym') else []))
    mm = ctx.mod('memorymap')
    m, exc = ctx.call(mm.get, fn)
    ctx.check('no-crash', exc is None or isinstance(exc, mm.MemMapException), repr(exc))
    if exc is None:
        ctx.check('size', ctx.eq(m['memory_types']['IRAM']['sections']['.iram0.text']['size'], n))


def scenarios(tier):
    A, B = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a'
    two = [(0, A, 'x.obj', '.text.x'), (0, B, 'y.obj', '.text.y')]
    three = [(0, A, 'x.obj', '.text.x'), (0, A, 'x.obj', '.text.x2'), (1, B, 'y.obj', '.text.y')]
    same = [(0, A, 'x.obj', '.literal'), (0, A, 'x.obj', '.literal')]
    out = [sc('two-1', attribute, '2 input sections with padding, 1 symbol with symbolic address, size and type byte',
              params=dict(layout=two, nsym=1, gaps=(0,), names=['foo', 'bar'])),
           sc('three-1', attribute, '3 input sections in 2 output sections (either order), 1 symbol', cost=2,
              params=dict(layout=three, nsym=1, gaps=(1,), names=['foo', 'bar'])),
           sc('two-2', attribute, '2 input sections, 2 symbols', cost=4,
              params=dict(layout=two, nsym=2, gaps=(0,), names=['foo', 'bar'])),
           sc('same-name', attribute, '2 input sections of one name in one object, 2 symbols of one name', cost=4,
              params=dict(layout=same, nsym=2, gaps=(), names=['foo', 'foo'])),
           sc('wide', attribute, '14 input sections of 5 object files, 1 symbol', cost=4,
              params=dict(layout=[(i // 9, (A, B)[i % 2], f'o{i % 5}.obj', f'.text.f{i}') for i in range(14)], nsym=1, gaps=(3, 11), names=['foo'])),
           sc('naming', naming, f'2 symbols, {len(NAMES)} and 2 names, function or object, sizes symbolic', cost=2),
           sc('no-input-sections', nosections, '1 output section without input sections, with and without a symbol')]
    if tier == 'thorough':
        out.append(sc('three-2', attribute, '3 input sections, 2 symbols', cost=8,
                      params=dict(layout=three, nsym=2, gaps=(1,), names=['foo', 'bar'])))
        out.append(sc('two-3', attribute, '2 input sections, 3 symbols', cost=9,
                      params=dict(layout=two, nsym=3, gaps=(0,), names=['foo', 'bar', 'baz'])))
    return out
