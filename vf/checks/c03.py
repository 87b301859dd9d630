"""C03: archive dependencies."""
from .common import (sc, args, elf_bytes, map_text, isec_lines, write_project, SHF_ALLOC, SHF_EXEC, SHT_PROGBITS, STT_FUNC,
                     STT_OBJECT, STT_NOTYPE, SHN_ABS, nodes)

ASSUMPTIONS = ['symbol and archive names are those of the scenario; sizes and addresses are symbolic']

LIBS = ['esp-idf/a/liba.a', 'esp-idf/b/libb.a', 'other/a/liba.a']
GONE = 'esp-idf/g/libgone.a'


def project(ctx, nsym, nrefs, kinds, rotate=False):
    """A map with three archives, an ELF file with nsym symbols and a cross reference table."""
    turn = ctx.choice('turn', range(6)) if rotate else 0
    base = 0x40080000
    cur = base
    body, sizes = [], {}
    for i, lib in enumerate(LIBS):
        s = ctx.int(f'size{i}', 16, 1 << 12)
        body += isec_lines(ctx, f'.text.x{i}', cur, s, f'{lib}(o{i}.obj)')
        sizes[lib] = s
        cur = cur + s
    crt, syms, rel = [], [], []
    for k in range(nsym):
        kind = kinds[(k + turn) % len(kinds)] if rotate else ctx.choice(f'kind{k}', kinds)
        d = (k * 5 // 3 + turn) % 3 if rotate else ctx.choice(f'def{k}', range(3 if k else 2))
        refs = []
        for j in range(nrefs):
            ways = [None, 0, 1, 2, 'gone', 'exe']
            r = ways[1 + (k + j * (k + turn + 1)) % 5] if rotate else ctx.choice(f'ref{k}{j}', ways)
            if r is None:
                break
            refs.append(r)
        where = [f'{LIBS[d]}(o{d}.obj)' if kind != 'gone' else f'{GONE}(x.obj)']
        for j, r in enumerate(refs):
            where.append(f'{GONE}(z.obj)' if r == 'gone' else '/x/crt0.o' if r == 'exe' else f'{LIBS[r]}(p{j}.obj)')
        crt.append((f'sym{k}', where))
        if kind in ('func', 'object', 'abs', 'notype', 'gone'):
            info = {'func': STT_FUNC, 'object': STT_OBJECT, 'abs': STT_FUNC, 'notype': STT_NOTYPE, 'gone': STT_FUNC}[kind]
            syms.append((f'sym{k}', base + k, 1, info | 0x10, SHN_ABS if kind == 'abs' else 1))
        if kind in ('func', 'object'):
            rel += [(LIBS[r], LIBS[d], f'sym{k}') for r in dict.fromkeys(refs) if r not in ('gone', 'exe') and r != d]
    total = cur - base
    text = map_text(ctx, [('iram0_0_seg', base, 0x20000, 'xrw')], [('.iram0.text', base, total, body)], crt=crt)
    elf = elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC | SHF_EXEC, base, total)], syms)
    return write_project(ctx, text, elf), sizes, rel


def deps(ctx, nsym, nrefs, kinds, rotate=False):
    fn, sizes, rel = project(ctx, nsym, nrefs, kinds, rotate)
    mapfile, memorymap, dp = ctx.mod('mapfile'), ctx.mod('memorymap'), ctx.mod('deps')
    with ctx.quiet():
        mf = mapfile.MapFile(fn)
        elf = memorymap.get_elf(fn)
        mm = memorymap.get(fn, False, None, mf, elf)
    for rev in (False, True):
        a = args(archive_dependencies=True, dep_reverse=rev)
        got, exc = ctx.call(dp.get_archives_dependencies, mf, mm, elf, a)
        ctx.check('no-error', exc is None, repr(exc))
        if exc is not None:
            return
        pairs = [(r, d) if not rev else (d, r) for r, d, _ in rel]
        flat = []
        for n1, i1 in got.items():
            ctx.check('abbrev', i1['abbrev_name'] == n1.split('/')[-1])
            ctx.check('size', n1 in sizes and ctx.eq(i1['size'], sizes[n1]), (n1, i1['size']))
            ctx.check('nonempty', len(i1['archives']) > 0, n1)
            for n2, i2 in i1['archives'].items():
                ctx.check('size', n2 in sizes and ctx.eq(i2['size'], sizes[n2]), (n2, i2['size']))
                ctx.check('nonempty', len(i2['symbols']) > 0, (n1, n2))
                for s in i2['symbols']:
                    flat.append((n1, n2, s) if not rev else (n2, n1, s))
        ctx.check('relation', sorted(flat) == sorted(rel), (rev, flat, rel))
    ctx.observe('rel', sorted(rel))


def many(ctx, nlib, prefix):
    """One symbol used by many archives, some more than once, and by its own archive."""
    base = 0x40080000
    libs = [f'esp-idf/l{i}/lib{i}.a' for i in range(nlib)]
    cur, body, sizes = base, [], {}
    for i, lib in enumerate(libs):
        s = ctx.int(f'size{i}', 1, 1 << 12)
        body += isec_lines(ctx, f'.text.x{i}', cur, s, f'{lib}(o{i}.obj)')
        sizes[lib] = s
        cur = cur + s
    d = ctx.choice('def', [0, nlib - 1])
    own = ctx.choice('own', ['no', 'same', 'other', 'same-last'])
    twice = ctx.flag('twice')
    users = [i for i in range(nlib) if i != d]
    where = [f'{libs[d]}(o{d}.obj)'] + ([f'{libs[d]}(o{d}.obj)'] if own == 'same' else [f'{libs[d]}(z.obj)'] if own == 'other' else [])
    where += [f'{libs[i]}(o{i}.obj)' for i in users] + ([f'{libs[i]}(p.obj)' for i in users] if twice else [])
    where += [f'{libs[d]}(o{d}.obj)'] if own == 'same-last' else []
    names = [prefix + 'f', prefix + 'g.part.0']
    text = map_text(ctx, [('iram0_0_seg', base, 0x40000, 'xrw')], [('.iram0.text', base, cur - base, body)], crt=[(x, where) for x in names])
    elf = elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC | SHF_EXEC, base, cur - base)],
                    [(x, base + k, 1, STT_FUNC | 0x10, 1) for k, x in enumerate(names)])
    fn = write_project(ctx, text, elf)
    mapfile, memorymap, dp = ctx.mod('mapfile'), ctx.mod('memorymap'), ctx.mod('deps')
    with ctx.quiet():
        mf = mapfile.MapFile(fn)
        e = memorymap.get_elf(fn)
        mm = memorymap.get(fn, False, None, mf, e)
    rev = ctx.flag('reverse')
    got, exc = ctx.call(dp.get_archives_dependencies, mf, mm, e, args(archive_dependencies=True, dep_reverse=rev))
    ctx.check('no-error', exc is None, repr(exc))
    if exc is not None:
        return
    flat = sorted((n1, n2, s) for n1, i1 in got.items() for n2, i2 in i1['archives'].items() for s in i2['symbols'])
    rel = sorted((libs[i], libs[d], s) if not rev else (libs[d], libs[i], s) for i in users for s in names)
    ctx.check('relation', flat == rel, (flat, rel))
    for n1, i1 in got.items():
        ctx.check('size', ctx.eq(i1['size'], sizes.get(n1, -1)), (n1, i1['size']))
    ctx.observe('rel', flat)


def elfsym(ctx):
    """Which symbols of the table count: type, section index and name in the ELF file are symbolic."""
    base = 0x40080000
    s0, s1 = ctx.int('s0', 1, 1 << 12), ctx.int('s1', 1, 1 << 12)
    body = isec_lines(ctx, '.text.x0', base, s0, f'{LIBS[0]}(o.obj)') + isec_lines(ctx, '.text.x1', base + s0, s1, f'{LIBS[1]}(p.obj)')
    info, shndx = ctx.int('info', 0, 255), ctx.int('shndx', 0, 65535)
    value, size = ctx.int('value', 0, (1 << 32) - 1), ctx.int('symsize', 0, (1 << 32) - 1)
    n1, n2 = ctx.str('crt', 2, 'abA_.@'), ctx.str('elf', 2, 'abA_.@')
    pre = ctx.choice('pre', ['__s', '_Z' + 's' * 300])
    text = map_text(ctx, [('iram0_0_seg', base, 0x20000, 'xrw')], [('.iram0.text', base, s0 + s1, body)])
    text = [text, 'Cross Reference Table\n\nSymbol                                            File\n' + pre, n1,
            f'                {LIBS[0]}(o.obj)\n                   {LIBS[1]}(p.obj)\n']
    elf = elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC | SHF_EXEC, base, s0 + s1)],
                    [(pre + n2, value, size, info, shndx)])
    fn = write_project(ctx, text, elf)
    mapfile, memorymap, dp = ctx.mod('mapfile'), ctx.mod('memorymap'), ctx.mod('deps')
    with ctx.quiet():
        mf = mapfile.MapFile(fn)
        elf = memorymap.get_elf(fn)
        mm = memorymap.get(fn, False, None, mf, elf)
    typ = info % 16
    want = ctx.And(ctx.eq(n1, n2), ctx.Or(ctx.eq(typ, STT_FUNC), ctx.eq(typ, STT_OBJECT)), ctx.Not(ctx.eq(shndx, SHN_ABS)))
    for rev in (False, True):
        got, exc = ctx.call(dp.get_archives_dependencies, mf, mm, elf, args(archive_dependencies=True, dep_reverse=rev))
        ctx.check('no-error', exc is None, repr(exc))
        if exc is not None:
            return
        has = len(got) == 1 and [len(i['archives']) for i in got.values()] == [1]
        if has:
            y = list(list(got.values())[0]['archives'].values())[0]['symbols']
            ctx.check('listed', len(y) == 1 and ctx.eq(y[0], pre + n1), got)
        ctx.check('counted', ctx.eq(want, has) if not isinstance(want, bool) else want == has, (rev, got))
        ctx.check('not-counted', has or got == {}, got)
    ctx.observe('has', has)


def table(ctx):
    """A cross reference table in the layouts of the linker."""
    from .c01 import parse
    wide = ctx.flag('wide')
    n = ctx.choice('n', range(3))
    libs = ['esp-idf/a/liba.a(a.c.obj)', '/opt/my tools (x86)/libc.a(b.o)', '/x/crt0.o', 'z.o']
    sp = [('esp-idf/a/liba.a', 'a.c.obj'), ('/opt/my tools (x86)/libc.a', 'b.o'), ('(exe)', '/x/crt0.o'), ('(exe)', 'z.o')]
    crt, exp = [], {}
    for k in range(n):
        name = ('s' * 60 if wide else 's') + str(k)
        locs = [ctx.choice(f'l{k}{j}', range(4)) for j in range(ctx.choice(f'n{k}', [1, 2] if k else [1, 2, 3]))]
        crt.append((name, [libs[i] for i in locs]))
        exp[name] = [sp[i] for i in locs]
    text = map_text(ctx, [('iram', 0x40080000, ctx.int('len', 0, 100), 'x')], [('.iram0.text', 0x40080000, 0, [])], crt=crt)
    m = parse(ctx, text)
    got = m.cross_reference_table
    ctx.check('table', (got or {}) == exp and all([tuple(x) for x in v] == exp[k] for k, v in (got or {}).items()), (got, exp))
    ctx.check('absent', (got is None) == (n == 0), got)


def missing(ctx):
    """Without an ELF file or a cross reference table there is an error, not an empty answer."""
    base = 0x40080000
    s = ctx.int('s', 1, 1000)
    has_elf, has_crt = ctx.choice('have', [(False, True), (True, False)])
    text = map_text(ctx, [('iram0_0_seg', base, 0x20000, 'xrw')],
                    [('.iram0.text', base, s, isec_lines(ctx, '.text.a', base, s, 'a.a(b.o)'))],
                    crt=[('sym', ['a.a(b.o)', 'c.a(d.o)'])] if has_crt else None)
    elf = elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, base, s)], []) if has_elf else None
    fn = write_project(ctx, text, elf)
    r = ctx.cli([fn, '--archive-dependencies', '--format', 'json2'])
    ctx.check('error', r.code != 0 and not r.out.strip(), (r.code, r.out))


def scenarios(tier):
    full = ['func', 'object', 'abs', 'notype', 'gone', 'absent']
    out = [sc('one', deps, '1 symbol of every kind, up to 2 references from 5 places; sizes symbolic',
              params=dict(nsym=1, nrefs=2, kinds=full), cost=2),
           sc('two', deps, '2 symbols, functions, discarded or defined by a discarded archive, up to 1 reference each', params=dict(nsym=2, nrefs=1, kinds=['func', 'absent', 'gone']), cost=3),
           sc('mixed', deps, '12 symbols of every kind in 6 orders, 3 references each', params=dict(nsym=12, nrefs=3, kinds=full, rotate=True), cost=2),
           sc('table', table, 'up to 3 symbols with up to 3 locations of 4 kinds, narrow and wide layout', cost=3),
           sc('elfsym', elfsym, 'symbol type, section index (16 bit), value, size and 2 characters of the name symbolic in the ELF file'),
           sc('many', many, '7 archives, one uses or defines the symbol of all the others, plain names', params=dict(nlib=7, prefix='')),
           sc('many-names', many, '4 archives, linker wrapped, mangled and versioned names', params=dict(nlib=4, prefix='__wrap__Z3')),
           sc('missing', missing, 'no ELF file or no cross reference table')]
    if tier == 'thorough':
        out.append(sc('one-3', deps, '1 symbol of every kind, up to 3 references', params=dict(nsym=1, nrefs=3, kinds=full), cost=8))
        out.append(sc('two-2', deps, '2 symbols, up to 2 references each', params=dict(nsym=2, nrefs=2, kinds=['func', 'object', 'abs']), cost=9))
    return out
