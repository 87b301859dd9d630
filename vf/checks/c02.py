"""C02: input sections and padding tile their output section."""
from .common import sc, region_lines, isec_lines, fill_line, osec_lines, h16

ASSUMPTIONS = ['the map is one a linker prints: addresses follow from sizes and padding; a section printed at the '
               'address of its successor occupies nothing']

DATA = [('BYTE', 1), ('SHORT', 2), ('LONG', 4), ('QUAD', 8), ('SQUAD', 8)]


def build(ctx, kinds, addr):
    """Body lines, expected input sections [(name, address, effective size)] and the end address."""
    cur = addr
    body, exp = [], []
    prev = None
    n = 0
    ends = ctx.int('size', 0, 1 << 24)  # size of the output section, tied to the contents below
    for i, k in enumerate(kinds):
        if k in ('sec', 'zero', 'merged', 'out'):
            name = f'.text.f{n}'
            n += 1
            a, s, eff = cur, 0, 0
            if k == 'sec':
                s = eff = ctx.int(f's{i}', 1, 1 << 16)
            elif k == 'merged':
                s = ctx.int(f's{i}', 1, 1 << 16)
            elif k == 'out':
                s = ctx.int(f's{i}', 1, 1 << 16)
                d = ctx.int(f'd{i}', 0, 1 << 10)
                a = addr + ends + d if ctx.flag(f'above{i}') else addr - 1 - d
            body += isec_lines(ctx, name, a, s, f'lib.a(o{n}.obj)', two=(i % 2 == 1))
            exp.append((name, a, eff))
            if k == 'sec':
                cur = cur + s
        elif k == 'fill':
            f = ctx.int(f'f{i}', 1, 1 << 12)
            body.append(fill_line(ctx, cur, f))
            cur = cur + f
        else:
            word, size = DATA[i % 5] if k == 'data' else DATA[(i + 2) % 5]
            body.append(f'                {h16(ctx, cur)} {ctx.hex(size):>10} {word} 0x0' + ('' if k == 'data' else ' (_x_end - _x_start)'))
            cur = cur + size
        prev = k
    ctx.assume(ctx.eq(addr + ends, cur))
    return body, exp, cur, ends


def tiling(ctx, first, n):
    kinds = list(first)
    for i in range(n - len(first)):
        opts = ['sec', 'zero', 'merged', 'out', 'fill', 'data', 'expr']
        if kinds and kinds[-1] == 'merged':
            opts = ['sec', 'zero', 'merged', 'fill']
        if not kinds:
            opts = ['sec', 'zero', 'merged', 'out']
        kinds.append(ctx.choice(f'k{i}', opts))
    if kinds[-1] == 'merged':
        ctx.assume(False)
    addr = ctx.int('addr', 1 << 20, 1 << 31)
    # padding in front of the first input section is not attributed to anything
    body, exp, end, size = build(ctx, kinds, addr)
    lines = region_lines(ctx, [('iram', 0x40080000, 0x20000, 'xr')]) + ['LOAD /x', '  0x0 IDF_TARGET_ESP32 = 0x0', '']
    lines += osec_lines(ctx, '.iram0.text', addr, size, body)
    fn = ctx.write('p.map', '\n'.join(lines) + '\n')
    with ctx.quiet():
        m = ctx.mod('mapfile').MapFile(fn)
    got = m.sections[0]['input_sections']
    ctx.check('count', len(got) == len(exp), got)
    for g, (name, a, s) in zip(got, exp):
        ctx.check('section', ctx.And(g['name'] == name, ctx.eq(g['address'], a), ctx.eq(g['size'], s)), (g, name, a, s))
    used = [g for g, e in zip(got, exp) if not isinstance(e[2], int) or e[2]]
    for g, h in zip(used, used[1:]):
        ctx.check('tiles', ctx.eq(g['address'] + g['size'] + g['fill'], h['address']), (g, h))
    if used:
        ctx.check('end', ctx.eq(used[-1]['address'] + used[-1]['size'] + used[-1]['fill'], end), (used[-1], end))
    _, exc = ctx.call(m.validate)
    ctx.check('valid', exc is None, repr(exc))
    ctx.observe('isecs', [[g['name'], g['address'], g['size'], g['fill']] for g in got])


def gap(ctx, n):
    """An input section that is not where its predecessors end is noticed."""
    addr = ctx.int('addr', 1 << 20, 1 << 31)
    where = ctx.choice('where', range(1, n))
    d = ctx.int('d', -64, 64)
    cur, body = addr, []
    for i in range(n):
        s = ctx.int(f's{i}', 65, 1 << 16)
        f = ctx.int(f'f{i}', 0, 64)
        if i == where:
            cur = cur + d
        body += isec_lines(ctx, f'.text.f{i}', cur, s, 'lib.a(o.obj)') + [fill_line(ctx, cur + s, f)]
        cur = cur + s + f
    lines = region_lines(ctx, [('iram', 0x40080000, 0x20000, 'xr')]) + ['LOAD /x', '  0x0 IDF_TARGET_ESP32 = 0x0', '']
    lines += osec_lines(ctx, '.iram0.text', addr, cur - addr, body)
    fn = ctx.write('p.map', '\n'.join(lines) + '\n')
    with ctx.quiet():
        m = ctx.mod('mapfile').MapFile(fn)
    _, exc = ctx.call(m.validate)
    bad = isinstance(exc, ctx.mod('mapfile').MapFileException)
    ctx.check('noticed', ctx.eq(ctx.eq(d, 0), not bad) if ctx.sym else (d == 0) == (not bad), (d, repr(exc)))
    r, exc2 = ctx.call(ctx.mod('memorymap').get, fn)
    ctx.check('still-reported', exc2 is None, repr(exc2))
    ctx.check('no-crash', exc is None or bad, repr(exc))
    ctx.observe('bad', bad)


def scenarios(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    firsts = [(a, b) for a in ('sec', 'zero', 'merged', 'out') for b in ('sec', 'zero', 'merged', 'out', 'fill', 'data', 'expr')
              if not (a == 'merged' and b in ('out', 'data', 'expr'))] + [(a, b) for a in ('fill', 'data') for b in ('sec', 'zero', 'merged', 'out')]
    for f in firsts:
        out.append(sc('-'.join(f), tiling, f'{n} entries (sections, empty or discarded sections, sections outside, padding, '
                      'explicit data) starting with ' + ', '.join(f) + '; symbolic sizes and addresses', params=dict(first=f, n=n)))
        out.append(sc('short-' + '-'.join(f), tiling, '3 entries', params=dict(first=f, n=3)))
    longs = [('sec',) + ('zero',) * 9 + ('fill', 'sec') + ('out',) * 5 + ('fill', 'data', 'fill'),
             ('sec', 'fill') * 5 + ('zero', 'merged') * 3 + ('sec', 'expr'), ('sec',) * 12 + ('fill',) * 4 + ('sec',) * 3]
    for i, f in enumerate(longs):
        out.append(sc(f'long-{i}', tiling, f'{len(f)} entries, fixed kinds', params=dict(first=f, n=len(f))))
    out.append(sc('gap', gap, '4 sections with padding, one displaced by a symbolic distance', params=dict(n=4)))
    return out
