"""C05: every byte of an output section is accounted to the memory type that holds it."""
from ..chips import CHIPS
from .c04 import expected_parts, runs, union
from .common import (sc, map_text, memmap_get, isec_lines, fill_line, write_project, elf_bytes, SHT_PROGBITS, SHF_ALLOC,
                     STT_FUNC, STT_OBJECT)

ASSUMPTIONS = ['linker regions are not empty',
               'the part of a section that lies outside every region does not reach the next region',
               'addresses and sizes below 2^31; with an ELF file symbols do not overlap']

EXT = ('External RAM', 'SPI DRAM')


def overlap(ctx, a, n, lo, ln):
    s = ctx.ite(a > lo, a, lo)
    e = ctx.ite(a + n < lo + ln, a + n, lo + ln)
    return ctx.ite(ctx.And(e > s, ln > 0), e - s, 0)


def covered(ctx, a, n, pieces):
    """Bytes of [a, a+n) in any of the pieces; pieces of different windows do not overlap."""
    wins = {}
    for lo, ln, _, win in pieces:
        s = ctx.ite(a > lo, a, lo)
        e = ctx.ite(a + n < lo + ln, a + n, lo + ln)
        wins.setdefault(win, []).append((s, ctx.ite(e > s, e, s)))
    return ctx.sum(union(ctx, p) for p in wins.values())


def regions(ctx, spans, lap):
    """Symbolic regions; they are disjoint, identical or, with lap, overlap."""
    regs = []
    for i, (lo, hi) in enumerate(spans):
        o = ctx.int(f'o{i}', lo, hi - 1)
        l = ctx.int(f'l{i}', 1, hi - lo)
        ctx.assume(o + l <= hi)
        for _, o2, l2, _ in regs:
            cut = ctx.Or(o + l <= o2, o2 + l2 <= o, ctx.And(ctx.eq(o, o2), ctx.eq(l, l2)))
            ctx.assume(ctx.Not(cut) if lap else cut)
        regs.append((f'reg{i}', o, l, 'rwx'))
    return regs


def pieces_of(ctx, chip, regs, spans):
    out = []
    for k, (_, o, l, _) in enumerate(regs):
        for lo, ln, alias, w in expected_parts(ctx, chip, o, l, spans[k], window=True):
            out.append((lo, ln, alias, w))
    return out


def body(ctx, secs):
    """Input sections with padding after each: (name, file, address, size, fill)."""
    out = []
    for name, file, addr, size, fill in secs:
        out += isec_lines(ctx, name, addr, size, file)
        if fill is not None:
            out.append(fill_line(ctx, addr + size, fill))
    return out


def place(ctx, chip, spans, names, nsec, fills=True, lap=False):
    regs = regions(ctx, spans, lap)
    pieces = pieces_of(ctx, chip, regs, spans)
    lo = min(s[0] for s in spans)
    hi = max(s[1] for s in spans)
    name = ctx.choice('name', names)
    addr = ctx.int('addr', max(lo - 64, 0), hi + 64)
    cur = addr
    secs = []
    for i in range(nsec):
        size = ctx.int(f's{i}', 1, 1 << 26)
        fill = ctx.int(f'f{i}', 1, 1 << 10) if fills and i == 0 else None
        secs.append((f'.text.f{i}', f'/b/lib{i % 2}.a(o{i}.obj)', cur, size, fill))
        cur = cur + size + (fill if fill is not None else 0)
    total = cur - addr
    ext = name.startswith(('.ext_ram.bss', '.ext_ram_noinit'))
    aliases = []
    for _, alias, _, _, _ in CHIPS[chip]:
        if alias not in aliases:
            aliases.append(alias)
    ext_alias = next((a for a in aliases if a in EXT), None) if ext else None
    if not ext_alias:
        # the uncovered part is a suffix which reaches no other region
        for i, (l1, n1, *_) in enumerate(pieces):
            ctx.assume(ctx.Or(n1 <= 0, l1 <= addr, l1 >= addr + total,
                              *[ctx.And(n2 > 0, l2 < l1, l1 <= l2 + n2) for l2, n2, *_ in pieces]))
    fn = ctx.write('p.map', map_text(ctx, regs, [(name, addr, total, body(ctx, secs))], target=chip))
    m = memmap_get(ctx, fn)

    cov = covered(ctx, addr, total, pieces)
    rest = addr + cov  # start of the uncovered part
    # the region in front of the uncovered part
    below = [ctx.And(n > 0, l <= rest) for l, n, *_ in pieces]
    last = [ctx.And(below[i], *[ctx.Or(ctx.Not(below[j]), pieces[j][0] <= pieces[i][0]) for j in range(len(pieces))])
            for i in range(len(pieces))]

    memo = {}

    def expect(alias, i):
        if (alias, i) not in memo:
            a, n = (addr, total) if i is None else secs[i][2:4]
            memo[alias, i] = ctx.memo((name, alias, i), lambda: _expect(alias, a, n))
        return memo[alias, i]

    def _expect(alias, a, n):
        """Bytes of [a, a+n) which belong to alias: (inside a region, overflowed)."""
        if ext_alias:
            return (n, 0) if alias == ext_alias else (0, 0)
        inside = covered(ctx, a, n, [x for x in pieces if x[2] == alias])
        out = n - covered(ctx, a, n, pieces)
        mine = ctx.Or(False, *[last[i] for i in range(len(pieces)) if pieces[i][2] == alias])
        return inside, ctx.ite(mine, out, 0)

    obs = {}
    for alias in aliases:
        t = m['memory_types'][alias]
        e_in, e_out = expect(alias, None)
        ctx.check('used', ctx.eq(t['used'], e_in + e_out), (alias, t['used'], e_in + e_out))
        ctx.check('known-sections', all(s in (name, name + '_overflow') for s in t['sections']), list(t['sections']))
        for key, which in ((name, 0), (name + '_overflow', 1)):
            s = t['sections'].get(key)
            e = (e_in, e_out)[which]
            ctx.check('nothing', s is None or s['size'] > 0, (alias, key, s and s['size']))
            ctx.check('section', ctx.eq(s['size'] if s else 0, e), (alias, key, s and s['size'], e))
            for an in (0, 1):
                arch = s['archives'].get(f'/b/lib{an}.a') if s else None
                e = ctx.sum(expect(alias, i)[which] for i in range(nsec) if i % 2 == an)
                ctx.check('archive', ctx.eq(arch['size'] if arch else 0, e), (alias, key, an, arch and arch['size'], e))
                for i, (sn, _, a, n, _) in enumerate(secs):
                    if i % 2 != an:
                        continue
                    e = expect(alias, i)[which]
                    obj = arch['object_files'].get(f'o{i}.obj') if arch else None
                    ctx.check('object', ctx.eq(obj['size'] if obj else 0, e), (alias, key, i, obj and obj['size'], e))
                    sym = obj['symbols'].get(sn) if obj else None
                    ctx.check('symbol', ctx.eq(sym['size'] if sym else 0, e), (alias, key, sn, sym and sym['size'], e))
            obs[alias + key] = s['size'] if s else 0
    ctx.observe('sizes', obs)


def symbols(ctx, nsym, over, nsec=1):
    """ELF symbols of an input section that crosses the boundary of two memory types, or the end of its region."""
    start, split, end = 0x40370000, 0x40378000, 0x403E0000
    regs = [('iram0_0_seg', start, (split if over else end) - start, 'xrw')]
    cur = addr = ctx.int('addr', split - 4096, split + (-1 if over else 16))
    body_, secs, syms = [], [], []
    for i in range(nsec):
        size = ctx.int(f's{i}', 1, 8192)
        body_ += isec_lines(ctx, f'.text.f{i}', cur, size, f'/b/liba.a(o{i}.obj)')
        off = 0
        for j in range(nsym if i == 0 else 1):
            o, z = ctx.int(f'o{i}{j}', 0, 8192), ctx.int(f'z{i}{j}', 1, 8192)
            ctx.assume(ctx.And(o >= off, o + z <= size))
            name, typ = ctx.choice(f'n{i}{j}', [('f', STT_FUNC), ('f', STT_OBJECT), ('g', STT_FUNC)]) if j else ('f', STT_FUNC)
            syms.append((name, cur + o, z, typ, 1, i))
            off = o + z
        secs.append((cur, size))
        cur = cur + size
    osec = '.iram0.text'
    text = map_text(ctx, regs, [(osec, addr, cur - addr, body_)], target='esp32s3')
    fn = write_project(ctx, text, elf_bytes(ctx, [(osec, SHT_PROGBITS, SHF_ALLOC, addr, cur - addr)], [x[:5] for x in syms]), target='esp32s3')
    m = memmap_get(ctx, fn)
    far = 1 << 32
    parts = [('IRAM', osec, 0, split), ('IRAM' if over else 'DIRAM', osec + '_overflow' if over else osec, split, far)]
    for alias, name, lo, hi in parts:
        s = m['memory_types'][alias]['sections'].get(name)
        objs = s['archives']['/b/liba.a']['object_files'] if s and '/b/liba.a' in s['archives'] else {}
        for i in range(nsec):
            o = objs.get(f'o{i}.obj')
            ctx.check('object', ctx.eq(o['size'] if o else 0, overlap(ctx, *secs[i], lo, hi - lo)), (alias, i))
            want = {}
            for n, a, z, typ, _, k in syms:
                if k == i:
                    key = n + '()' * (typ == STT_FUNC)
                    want[key] = want.get(key, 0) + overlap(ctx, a, z, lo, hi - lo)
            for n, z in want.items():
                y = o['symbols'].get(n) if o else None
                ctx.check('symbol', ctx.eq(y['size'] if y else 0, z), (alias, i, n, y and y['size'], z))
            ctx.check('others', all(n in want for n in (o['symbols'] if o else {})), o and list(o['symbols']))


def several(ctx, swap):
    """Several output sections in several regions: each is accounted where it lies, and only there."""
    where = [('iram0_0_seg', 0x40374000, 0x4000, 'IRAM'), ('iram0_2_seg', 0x42000020, 0x10000, 'Flash Code'),
             ('drom0_0_seg', 0x3C000020, 0x10000, 'Flash Data'), ('rtc_slow_seg', 0x50000000, 0x2000, 'RTC SLOW')]
    regs = [(n, o, l, 'xrw') for n, o, l, _ in where]
    if swap:
        regs = regs[::-1]
    osecs, exp = [], []
    used = {}
    for k, name in enumerate(['.iram0.text', '.flash.text', '.flash.rodata']):
        r = ctx.choice(f'r{k}', range(4))
        s0, s1 = ctx.int(f's{k}0', 1, 256), ctx.int(f's{k}1', 1, 256)
        a = where[r][1] + 1024 * used.get(r, 0)
        used[r] = used.get(r, 0) + 1
        osecs.append((name, a, s0 + s1, body(ctx, [('.text.f', '/b/liba.a(o.obj)', a, s0, None), ('.text.g', '/b/libb.a(o.obj)', a + s0, s1, None)])))
        exp.append((where[r][3], name, s0, s1))
    if ctx.flag('reverse'):
        osecs = osecs[::-1]
    fn = ctx.write('p.map', map_text(ctx, regs, osecs, target='esp32s3'))
    m = memmap_get(ctx, fn)
    for alias, t in m['memory_types'].items():
        mine = {n: (s0, s1) for al, n, s0, s1 in exp if al == alias}
        ctx.check('sections', sorted(t['sections']) == sorted(mine), (alias, list(t['sections'])))
        ctx.check('used', ctx.eq(t['used'], ctx.sum(a + b for a, b in mine.values())), alias)
        for n, (s0, s1) in mine.items():
            s = t['sections'].get(n)
            if s:
                ctx.check('section', ctx.eq(s['size'], s0 + s1), (alias, n))
                ctx.check('archives', ctx.deep_eq({k: (v['size'], v['object_files']['o.obj']['size'], v['object_files']['o.obj']['symbols'])
                                                   for k, v in s['archives'].items()},
                                                  {f'/b/lib{l}.a': (z, z, {f'.text.{f}': {'abbrev_name': f'.text.{f}', 'size': z, 'size_diff': 0}})
                                                   for l, f, z in (('a', 'f', s0), ('b', 'g', s1))}), (alias, n))


def crowd(ctx, nisec, nosec):
    """Many input sections across a memory type boundary, and many output sections in front of them."""
    start, bound, end = 0x40370000, 0x40378000, 0x403E0000
    cur, osecs, exp = bound - nosec * 0x40 - ctx.int('at', 0, nisec * 20), [], {}
    base = cur

    def within(a, n, lo, hi):
        x, y = ctx.ite(a > lo, a, lo), ctx.ite(a + n < hi, a + n, hi)
        return ctx.ite(y > x, y - x, 0)
    for k in range(nosec):
        name = f'.iram0.t{k}' if k < nosec - 1 else '.iram0.text'
        a0, lines = cur, []
        for i in range(2 if k < nosec - 1 else nisec):
            size = ctx.int(f's{k}', 1, 0x20) if i == 1 and k in (0, nosec - 1) else 0x10
            lines += isec_lines(ctx, f'.text.f{i}', cur, size, f'/b/lib{i % 3}.a(o{i}.obj)')
            exp[name, f'/b/lib{i % 3}.a', f'o{i}.obj'] = (cur, size)
            cur = cur + size
        osecs.append((name, a0, cur - a0, lines))
    hdrs = [(n, SHT_PROGBITS, SHF_ALLOC, a, z) for n, a, z, _ in osecs]
    fn = write_project(ctx, map_text(ctx, [('iram0_0_seg', start, end - start, 'xrw')], osecs, target='esp32s3'), elf_bytes(ctx, hdrs, []), target='esp32s3')
    m = memmap_get(ctx, fn)
    for alias, lo, hi in (('IRAM', start, bound), ('DIRAM', bound, end)):
        t = m['memory_types'][alias]
        ctx.check('used', ctx.eq(t['used'], within(base, cur - base, lo, hi)), alias)
        for n, a, z, _ in osecs:
            s = t['sections'].get(n)
            ctx.check('section', ctx.eq(s['size'] if s else 0, within(a, z, lo, hi)), (alias, n))
        for (n, ar, ob), (a, z) in exp.items():
            o = t['sections'].get(n, {}).get('archives', {}).get(ar, {}).get('object_files', {}).get(ob)
            ctx.check('object', ctx.eq(o['size'] if o else 0, within(a, z, lo, hi)), (alias, n, ar, ob))
    ctx.check('others', ctx.eq(ctx.sum(t['used'] for t in m['memory_types'].values()), cur - base))
    ctx.observe('used', sorted([k, t['used']] for k, t in m['memory_types'].items()))


def scenarios(tier):
    out = []
    for over in (False, True):
        t = 'end' if over else 'boundary'
        out.append(sc(f'symbols-1-{t}', symbols, '1 input section across the boundary of two memory types or the end of its region, 2 ELF symbols',
                      params=dict(nsym=2, over=over)))
        out.append(sc(f'symbols-2-{t}', symbols, '2 input sections across the boundary of two memory types or the end of their region, 1 and 1 ELF symbols',
                      params=dict(nsym=1, over=over, nsec=2), cost=2))
        if tier == 'thorough':
            out.append(sc(f'symbols-3-{t}', symbols, '2 input sections, 3 and 1 ELF symbols', params=dict(nsym=3, over=over, nsec=2), cost=3))
    for swap in (False, True):
        out.append(sc(f'several-{"swap" if swap else "order"}', several, '3 output sections in any of 4 regions, 2 input sections each, symbolic sizes',
                      params=dict(swap=swap), cost=2))
    out.append(sc('crowd', crowd, '8 output sections, the last with 12 input sections across a memory type boundary', params=dict(nisec=12, nosec=8), tick_limit=60000))
    for chip in CHIPS:
        rs = runs(chip)
        for i, (a, b, ws) in enumerate(rs):
            span = (a, b + 0x1000) if i + 1 == len(rs) or rs[i + 1][0] > b + 0x1000 else (a, b)
            out.append(sc(f'one-{chip}-{i}', place,
                          '1 region with symbolic origin and length in a run of adjacent memory types; 1 output section '
                          'with symbolic address, 2 input sections with symbolic sizes and padding', cost=2,
                          params=dict(chip=chip, spans=[span], names=['.iram0.text'], nsec=2)))
            if len(ws) > 1 or tier == 'thorough':
                out.append(sc(f'two-{chip}-{i}', place, '2 regions in a run of adjacent memory types, 1 output section, '
                              '1 input section with padding', cost=4,
                              params=dict(chip=chip, spans=[span, span], names=['.flash.rodata'], nsec=1)))
            if len(ws) == 2 and chip in ('esp32', 'esp32s3') or tier == 'thorough':
                out.append(sc(f'lap-{chip}-{i}', place, '2 regions that overlap in a run of adjacent memory types, 1 output section, '
                              '1 input section', cost=4,
                              params=dict(chip=chip, spans=[span, span], names=['.flash.rodata'], nsec=1, fills=False, lap=True)))
            if i:
                p = rs[i - 1]
                out.append(sc(f'gap-{chip}-{i}', place, '2 regions in neighbouring runs of memory types, 1 output section '
                              'anywhere around them', cost=3,
                              params=dict(chip=chip, spans=[span, (p[0], p[1])], names=['.dram0.bss'], nsec=1,
                                          fills=False)))
        a, b, ws = rs[0]
        out.append(sc(f'ext-{chip}', place, '1 region, 1 output section named as external RAM at a symbolic address, '
                      '2 input sections', cost=1,
                      params=dict(chip=chip, spans=[(a, b)], nsec=2,
                                  names=['.ext_ram.bss', '.ext_ram_noinit', '.ext_ram.bss.data', '.ext_ram.rodata'])))
    return out
