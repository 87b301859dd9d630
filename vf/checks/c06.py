"""C06: sizes add up at every level of a memory map."""
import copy

from .common import (sc, map_text, memmap_get, isec_lines, fill_line, write_project, elf_bytes, SHT_PROGBITS, SHF_ALLOC,
                     STT_FUNC, STT_OBJECT)

ASSUMPTIONS = ['names are drawn from small alphabets so that entries may coincide or differ',
               'the memory map is one the tool built from a linker map; with an ELF file, symbols do not overlap']

FILES = ['/b/x/libx.a(m.o)', '/c/libx.a(m.o)', '/b/x/libx.a(n.o)', '/b/d/m.o']
SECS = ['.text.f', '.text.g', 'COMMON']
# two adjacent memory types of this chip and the boundary between them
CHIP, START, SPLIT, END = 'esp32s3', 0x40370000, 0x40378000, 0x403E0000


def sums(ctx, tag, m, pad=None, symbols=True, elf=False, suffix=''):
    s, u = 'size' + suffix, 'used' + suffix
    slack = 0
    for name, t in m['memory_types'].items():
        ctx.check(f'{tag}.used', ctx.eq(t[u], ctx.sum(x[s] for x in t['sections'].values())), name)
        for sn, sec in t['sections'].items():
            rest = sec[s] - ctx.sum(a[s] for a in sec['archives'].values())
            if not suffix:
                ctx.check(f'{tag}.section', rest >= 0, (name, sn))
            slack = slack + rest
            for an, a in sec['archives'].items():
                ctx.check(f'{tag}.archive', ctx.eq(a[s], ctx.sum(o[s] for o in a['object_files'].values())), (name, sn, an))
                for on, o in a['object_files'].items():
                    t_s = ctx.sum(y[s] for y in o['symbols'].values())
                    if symbols and not elf:
                        ctx.check(f'{tag}.object', ctx.eq(o[s], t_s), (name, sn, an, on))
                    elif symbols and not suffix:
                        ctx.check(f'{tag}.object', o[s] >= t_s, (name, sn, an, on))
                    elif not symbols:
                        ctx.check(f'{tag}.nosymbols', not o['symbols'])
    if pad is not None:
        ctx.check(f'{tag}.padding', ctx.eq(slack, pad))


def project(ctx, who, osecs, files, names, near, elf_syms=0):
    """One project; osecs: list of (output section name, number of input sections)."""
    regs = [('iram0_0_seg', START, END - START, 'xrw')]
    cur = ctx.int(f'{who}addr', SPLIT - near, SPLIT + 16) if near else START + 64
    out, pad, i = [], 0, 0
    headers, syms = [], []
    for name, n in osecs:
        a0, body = cur, []
        for k in range(n):
            size = ctx.int(f'{who}s{i}', 1, 1 << 12)
            f = ctx.choice(f'{who}file{i}', files) if len(files) > 1 else files[0]
            sec = ctx.choice(f'{who}name{i}', names) if len(names) > 1 else names[0]
            body += isec_lines(ctx, sec, cur, size, f)
            if i == 0 and elf_syms:
                off = 0
                for j in range(elf_syms):
                    o = ctx.int(f'{who}o{j}', 0, 1 << 12)
                    z = ctx.int(f'{who}z{j}', 1, 1 << 12)
                    ctx.assume(ctx.And(o >= off, o + z <= size))
                    syms.append((ctx.choice(f'{who}sn{j}', ['f', 'g']), cur + o, z, STT_FUNC if j else STT_OBJECT, 1))
                    off = o + z
            cur = cur + size
            if k == 0 or n > 3:
                fill = ctx.int(f'{who}f{i}', 1, 64)
                body.append(fill_line(ctx, cur, fill))
                cur, pad = cur + fill, pad + fill
            i += 1
        headers.append((name, SHT_PROGBITS, SHF_ALLOC, a0, cur - a0))
        out.append((name, a0, cur - a0, body))
    text = map_text(ctx, regs, out, target=CHIP)
    elf = elf_bytes(ctx, headers, syms) if elf_syms else None
    return write_project(ctx, text, elf, name=who, target=CHIP), pad


def tree(ctx, osecs, files, names, near, load, elf_syms=0):
    fn, pad = project(ctx, 'cur', osecs, files, names, near, elf_syms)
    m = memmap_get(ctx, fn, load_symbols=load)
    sums(ctx, 'get', m, pad, load, bool(elf_syms))
    mm = ctx.mod('memorymap')
    ctx.observe('used', {k: v['used'] for k, v in m['memory_types'].items()})
    with ctx.quiet():
        mm.remove_unused(m)
        sums(ctx, 'unused', m, pad, load, bool(elf_syms))
        mm.unify(m)
    sums(ctx, 'unify', m, pad, load, bool(elf_syms))


def hollow(ctx, near, before):
    """An output section without input sections, alone in its memory type or not."""
    mm = ctx.mod('memorymap')
    a = ctx.int('addr', SPLIT - near, SPLIT + 16) if near else SPLIT + 64
    n, z = ctx.int('n', 1, 1 << 12), ctx.int('z', 1, 1 << 12)
    osecs = [('.dram0.data', a, n, [fill_line(ctx, a, n)] if ctx.flag('fill') else [])]
    if before:
        osecs.append(('.dram0.bss', a + n, z, isec_lines(ctx, '.bss.x', a + n, z, FILES[0])))
    text = map_text(ctx, [('iram0_0_seg', START, END - START, 'xrw')], osecs, target=CHIP)
    m = memmap_get(ctx, write_project(ctx, text, None, name='cur', target=CHIP))
    sums(ctx, 'get', m, n)
    with ctx.quiet():
        mm.remove_unused(m)
        sums(ctx, 'unused', m)
        total = ctx.sum(t['used'] for t in m['memory_types'].values())
        ctx.check('unused.total', ctx.Or(ctx.eq(total, z if before else 0), ctx.eq(total, n + (z if before else 0))), total)
        mm.unify(m)
        sums(ctx, 'unify', m)


def differ(ctx, osecs_c, osecs_r, files, names, near):
    fn, pad = project(ctx, 'cur', osecs_c, files, names, near)
    fr, pad_r = project(ctx, 'ref', osecs_r, files, names, 0)
    cur, ref = memmap_get(ctx, fn), memmap_get(ctx, fr)
    mm = ctx.mod('memorymap')
    with ctx.quiet():
        d = mm.diff(cur, ref)
    for s, p in (('', pad), ('_diff', pad - pad_r)):
        sums(ctx, 'diff' + s, d, p, suffix=s)
    c2, r2, d2 = copy.deepcopy(cur), copy.deepcopy(ref), copy.deepcopy(d)
    with ctx.quiet():
        mm.remove_unused(d2)
        mm.remove_unused(c2)
        mm.remove_unused(r2)
        e2 = mm.diff(c2, r2)
    sums(ctx, 'diff-unused', d2)
    for s, p in (('', pad), ('_diff', pad - pad_r)):
        sums(ctx, 'unused-diff' + s, e2, p, suffix=s)
    with ctx.quiet():
        mm.unify(d)
    for s, p in (('', pad), ('_diff', pad - pad_r)):
        sums(ctx, 'diff-unify' + s, d, p, suffix=s)
    with ctx.quiet():
        mm.unify(cur)
        mm.unify(ref)
        e = mm.diff(cur, ref)
    for s, p in (('', pad), ('_diff', pad - pad_r)):
        sums(ctx, 'unify-diff' + s, e, p, suffix=s)


def scenarios(tier):
    out = []
    far, near = 0, 4096
    big = tier == 'thorough'
    O1, O2 = '.dram0.data', '.dram1.data'
    for load in (True, False):
        l = 'sym' if load else 'nosym'
        out.append(sc(f'one-{l}', tree, '1 output section around a memory type boundary, 2 input sections, files symbolic',
                      params=dict(osecs=[(O1, 2)], files=FILES, names=SECS[:1], near=near, load=load), cost=2))
        out.append(sc(f'two-{l}', tree, '2 output sections, 2 and 1 input sections, files symbolic',
                      params=dict(osecs=[(O1, 2), (O2, 1)], files=FILES[:3] if not big else FILES, names=SECS[:1], near=far,
                                  load=load), cost=3))
    out.append(sc('split', tree, '2 output sections around a memory type boundary, 1 input section each, 2 files',
                  params=dict(osecs=[(O1, 1), (O2, 1)], files=FILES[:2], names=SECS[:1], near=near, load=True), cost=3))
    out.append(sc('same-name', tree, '3 input sections in one object, section names symbolic',
                  params=dict(osecs=[(O1, 2), (O2, 1)], files=FILES[:1], names=SECS, near=far, load=True), cost=2))
    for n in (1, 2):
        out.append(sc(f'elf-{n}', tree, f'1 output section around a memory type boundary, 2 input sections, {n} ELF symbols '
                      'anywhere in the first', params=dict(osecs=[(O1, 2)], files=FILES[:2] if n == 1 else FILES[:1], names=SECS[:1],
                                                           near=near, load=True, elf_syms=n), cost=4))
    out.append(sc('diff', differ, '2 projects with 1 output section each around a boundary, 1 input section, files symbolic',
                  params=dict(osecs_c=[(O1, 1)], osecs_r=[(O1, 1)], files=FILES[:3], names=SECS[:1], near=near), cost=3))
    out.append(sc('diff-two', differ, '2 projects with 2 and 1 output sections, 1 input section each, files symbolic',
                  params=dict(osecs_c=[(O1, 1), (O2, 1)], osecs_r=[(O2, 1)], files=FILES[:3], names=SECS[:1], near=far), cost=3))
    for b in (False, True):
        out.append(sc('hollow' + '-two' * b, hollow, 'an output section of only padding around a memory type boundary' + ' and one with an input section' * b,
                      params=dict(near=near, before=b)))
    out.append(sc('wide', tree, '1 output section around a memory type boundary, 5 input sections of 1 or 2 objects, each with padding',
                  params=dict(osecs=[(O1, 5)], files=FILES[:2], names=SECS[:1], near=64, load=True), cost=6))
    out.append(sc('wide-out', tree, '5 output sections around a memory type boundary, 1 input section each',
                  params=dict(osecs=[(O1, 1), (O2, 1), ('.dram2.data', 1), ('.dram0.bss', 1), ('.iram0.text', 1)], files=FILES[:1],
                              names=SECS[:1], near=64, load=True), cost=6))
    if True:
        out.append(sc('three', tree, '1 output section around a boundary, 3 input sections, files and names symbolic',
                      params=dict(osecs=[(O1, 3)], files=FILES[:3], names=SECS[:2], near=near, load=True), cost=6))
        out.append(sc('two-near', tree, '2 output sections around a boundary, 2 and 1 input sections, files symbolic',
                      params=dict(osecs=[(O1, 2), (O2, 1)], files=FILES[:3], names=SECS[:1], near=near, load=True), cost=6))
        out.append(sc('elf-3', tree, '3 ELF symbols', params=dict(osecs=[(O1, 2)], files=FILES[:2], names=SECS[:1], near=near,
                                                                  load=True, elf_syms=3), cost=6))
    return out
