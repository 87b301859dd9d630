"""C10: ELF headers, sections and symbols are decoded exactly."""
from .common import sc, elf_bytes, map_text, isec_lines, write_project, SHT_PROGBITS

ASSUMPTIONS = ['section and symbol names of up to 3 symbolic characters; well-formed tables']


def decode(ctx, bits, big, nsec, nsym):
    M = (1 << bits) - 1
    W = (1 << 32) - 1
    secs = []
    for i in range(nsec):
        nm = '.s' + ctx.str(f'name{i}', 2, 'ab.')
        secs.append((nm, ctx.int(f'type{i}', 0, 1), ctx.int(f'flags{i}', 0, M), ctx.int(f'addr{i}', 0, M), ctx.int(f'size{i}', 0, M)))
    syms = []
    for i in range(nsym):
        syms.append((ctx.str(f'sym{i}', 3, 'xyz'), ctx.int(f'v{i}', 0, M), ctx.int(f'n{i}', 0, M), ctx.int(f'info{i}', 0, 255),
                     ctx.int(f'shndx{i}', 0, 65535)))
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, secs, syms, bits=bits, big=big))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
    ctx.check('count', len(e.shdrs) == nsec + 4, len(e.shdrs))
    for h, (nm, typ, flags, addr, size) in zip(e.shdrs[1:], secs):
        ctx.check('section', ctx.And(ctx.eq(h.name, nm), ctx.eq(h.sh_type, typ), ctx.eq(h.sh_flags, flags), ctx.eq(h.sh_addr, addr),
                                     ctx.eq(h.sh_size, size)), h)
    got = e.symbols
    ctx.check('symbols', len(got) == nsym + 1, len(got))
    for s, (nm, v, n, info, shndx) in zip(got[1:], syms):
        ctx.check('symbol', ctx.And(ctx.eq(s.name, nm), ctx.eq(s.st_value, v), ctx.eq(s.st_size, n), ctx.eq(s.st_shndx, shndx),
                                    ctx.eq(s.type, info % 16), ctx.eq(s.bind, info // 16)), s)
    ctx.check('entry', ctx.eq(e.ehdr.e_entry, 0x40080000))
    x = e.lookup_shdr('.symtab')
    ctx.check('lookup', x is not None and x.sh_type == 2)
    ctx.check('no-such', e.lookup_shdr('.nothing') is None)
    ctx.observe('e', [[h.name, h.sh_size] for h in e.shdrs] + [[s.name, s.st_value, s.type, s.bind] for s in got])


def contents(ctx, bits, big):
    """Section contents and names come from the right place."""
    blob = [ctx.byte(f'b{i}') for i in range(6)]
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', 1, 2, 0x40080000, 4)], [], bits=bits, big=big,
                                            blobs=[('.one', [1, 2, 3]), ('.blob', blob), ('.two', [9])]))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
    for name, want in (('.one', [1, 2, 3]), ('.blob', blob), ('.two', [9])):
        d = e.lookup_shdr(name).data
        ctx.check('data', len(d) == len(want) and ctx.And(*[ctx.eq(d[i], want[i]) for i in range(len(want))]), (name, d))
    ctx.observe('d', [e.lookup_shdr('.blob').data[i] for i in range(6)])


def lengthy(ctx, bits, big):
    """Names of any length."""
    n = ctx.choice('n', [1, 63, 64, 127, 128, 255, 256, 257, 300, 1023, 1024, 5000])
    x = ctx.str('x', 2, 'xyz')
    v = ctx.int('v', 0, (1 << bits) - 1)
    name, sec = 'n' * n + x, '.s' + 'm' * n
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [(sec, 1, 2, 0x40080000, 4), ('.t', 1, 2, 0x40080010, 4)],
                                            [('a', 1, 4, 2, 1), (name, v, 4, 2, 1), ('b', 2, 4, 2, 2)], bits=bits, big=big))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
    ctx.check('sections', [h.name for h in e.shdrs[1:3]] == [sec, '.t'], [h.name for h in e.shdrs])
    ctx.check('names', len(e.symbols) == 4 and ctx.And(ctx.eq(e.symbols[1].name, 'a'), ctx.eq(e.symbols[2].name, name), ctx.eq(e.symbols[2].st_value, v),
                                                       ctx.eq(e.symbols[3].name, 'b')), [s.name for s in e.symbols])
    h = e.lookup_shdr(sec)
    ctx.check('lookup', h is not None and ctx.eq(h.sh_addr, 0x40080000))


def tables(ctx, bits, big, dyn):
    """All header fields; names that share their tail; a dynamic symbol table; program headers."""
    M, W = (1 << bits) - 1, (1 << 32) - 1
    text = list(b'\0.rela.text\0.x\0')
    offs = {k: bytes(text[k:text.index(0, k)]).decode() for k in range(len(text))}
    o1, o2, o3 = (ctx.choice(f'o{i}', c) for i, c in enumerate(([1, 6, 12], [0, 3, 13], [6, 11])))
    hdr = [ctx.int(n, 0, W if n in ('type', 'link', 'info') else M) for n in ('type', 'flags', 'addr', 'offset', 'size', 'link', 'info', 'align', 'entsize')]
    if not dyn:
        ctx.assume(ctx.And(*[ctx.Not(ctx.eq(hdr[0], t)) for t in (2, 11)]))
    w = 4 if bits == 32 else 8
    f = lambda n, size: ctx.field(n, size, big)
    sym = [[ctx.int(f'{n}{i}', 0, h) for n, h in (('value', M), ('size', M), ('info', 255), ('other', 255), ('shndx', 65535))] for i in range(2)]
    data = []
    for nm, (v, n, i, o, x) in zip((o2, o3), sym):
        data += f(nm, 4) + (f(v, 4) + f(n, 4) + f(i, 1) + f(o, 1) + f(x, 2) if bits == 32 else f(i, 1) + f(o, 1) + f(x, 2) + f(v, 8) + f(n, 8))
    half = len(data) // 2
    eh, she, phe = (52, 40, 32) if bits == 32 else (64, 64, 56)
    ph = [ctx.int(f'ph{i}', 0, M if bits == 32 or i > 1 else W) for i in range(8)]
    phb = []
    for i, v in enumerate(ph):
        phb += f(v, 4 if bits == 32 or i < 2 else 8)
    body = phb + text + data
    at = [eh + len(phb), eh + len(phb) + len(text)]

    def sh(*v):
        out = []
        for x, n in zip(v, (4, 4, w, w, w, w, 4, 4, w, w)):
            out += f(x, n)
        return out
    heads = [sh(*[0] * 10), sh(o1, *hdr)] if not dyn else [sh(*[0] * 10), sh(o1, 11, 2, 0, at[1] + half, half, 3, 0, 4, half)]
    heads.append(sh(6, 2, 0, 0, at[1], half if dyn else 2 * half, 3, 0, 4, half))
    heads.append(sh(12, 3, 0, 0, at[0], len(text), 0, 0, 1, 0))
    ident = [0x7f, 0x45, 0x4c, 0x46, 1 if bits == 32 else 2, 2 if big else 1, 1] + [0] * 9
    e = [ctx.int('entry', 0, M), ctx.int('flags_e', 0, W)]
    head = ident + f(2, 2) + f(94, 2) + f(1, 4) + f(e[0], w) + f(eh, w) + f(eh + len(body), w) + f(e[1], 4) + f(eh, 2) + f(phe, 2) + f(1, 2) + \
        f(she, 2) + f(4, 2) + f(3, 2)
    fn = ctx.write_bytes('a.elf', head + body + [b for h in heads for b in h])
    with ctx.quiet():
        x = ctx.mod('elf').Elf(fn)
    ctx.check('header', ctx.And(ctx.eq(x.ehdr.e_entry, e[0]), ctx.eq(x.ehdr.e_flags, e[1])))
    p = x.phdrs[0]
    got = [p.p_type, p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_flags, p.p_align]
    if bits == 32:
        ctx.check('segment', len(x.phdrs) == 1 and ctx.all_eq(zip(got, ph)), got)
    ctx.check('names', [h.name for h in x.shdrs] == ['', offs[o1], '.text', '.x'], [h.name for h in x.shdrs])
    h = x.shdrs[1]
    if not dyn:
        got = [h.sh_type, h.sh_flags, h.sh_addr, h.sh_offset, h.sh_size, h.sh_link, h.sh_info, h.sh_addralign, h.sh_entsize]
        ctx.check('fields', ctx.all_eq(zip(got, hdr)), got)
    want = list(zip((o2, o3), sym))
    if dyn:
        want.reverse()
    ctx.check('symbols', len(x.symbols) == 2, len(x.symbols))
    for s, (nm, (v, n, i, o, k)) in zip(x.symbols, want):
        ctx.check('symbol-name', s.name == offs[nm], (s.name, nm))
        ctx.check('symbol', ctx.And(ctx.eq(s.st_value, v), ctx.eq(s.st_size, n), ctx.eq(s.type, i % 16), ctx.eq(s.bind, i // 16),
                                    ctx.eq(s.visibility, o % 4), ctx.eq(s.st_shndx, k)), s)


def beyond(ctx, bits, big):
    """Contents that lie, in part, beyond the end of the file are refused."""
    b = list(elf_bytes(ctx, [('.text', 1, 2, 0x40080000, 4)], [], bits=bits, big=big, blobs=[('.blob', [1, 2, 3, 4])]))
    n = len(b)
    w, eh, she = (4, 52, 40) if bits == 32 else (8, 64, 64)
    order = (lambda v: list(v.to_bytes(w, 'big' if big else 'little')))
    sh = n - 6 * she + 2 * she
    pos = sh + (16 if bits == 32 else 24)
    off = ctx.choice('off', [0, 1, eh, n - 2, n - 1, n, n + 5])
    size = ctx.choice('size', [0, 1, 2, n - 1, n, n + 1, 2 * n])
    b[pos:pos + w] = order(off)
    b[pos + w:pos + 2 * w] = order(size)
    E = ctx.mod('elf')
    e = E.Elf(ctx.write_bytes('a.elf', b))
    s = e.lookup_shdr('.blob')
    d, exc = ctx.call(lambda: s.data)
    if size == 0:
        ctx.check('empty', exc is not None or len(d) == 0)
    elif off + size <= n:
        ctx.check('read', exc is None and len(d) == size and list(d) == b[off:off + size], repr(exc))
    else:
        ctx.check('refused', isinstance(exc, E.Elf_Exception), (off, size, repr(exc)))


def unterminated(ctx, bits, big):
    """A name whose end is missing is refused or is all that is there, never less."""
    n = ctx.choice('n', [1, 2, 4])
    name = ctx.str('name', n, 'xyz')
    b = list(elf_bytes(ctx, [('.text', 1, 2, 0x40080000, 4)], [('x', 1, 4, 2, 1), (name, 2, 4, 1, 1)], bits=bits, big=big))
    w, she = (4, 40) if bits == 32 else (8, 64)
    sh = len(b) - 2 * she
    pos = sh + (20 if bits == 32 else 32)
    order = 'big' if big else 'little'
    size = int.from_bytes(bytes(b[pos:pos + w]), order)
    ctx.check('harness', size == 1 + 2 + n + 1, size)
    b[pos:pos + w] = list((size - 1).to_bytes(w, order))
    e = ctx.mod('elf').Elf(ctx.write_bytes('a.elf', b))
    first, exc = ctx.call(lambda: e.symbols[1].name)
    ctx.check('first', exc is None and first == 'x', repr(exc))
    got, exc = ctx.call(lambda: e.symbols[2].name)
    ctx.check('name', exc is not None or ctx.eq(got, name), got)


def ident(ctx):
    """What is not an ELF file of a known class and byte order is refused."""
    big = ctx.flag('big')
    bits = ctx.choice('bits', [32, 64])
    b = elf_bytes(ctx, [('.text', 1, 2, 0x40080000, 4)], [('f', 0x40080000, 4, 2, 1)], bits=bits, big=big)
    pos = ctx.choice('pos', range(6))
    v = ctx.byte('v')
    good = ctx.eq(v, b[pos])
    if pos in (4, 5):
        # the other class or byte order is valid too but makes the rest meaningless
        ctx.assume(ctx.Or(good, ctx.Not(ctx.Or(ctx.eq(v, 1), ctx.eq(v, 2)))))
    b = list(b)
    b[pos] = v
    E = ctx.mod('elf')
    base = 0x40080000
    text = map_text(ctx, [('iram0_0_seg', base, 0x2000, 'xrw')],
                    [('.iram0.text', base, 4, isec_lines(ctx, '.text.a', base, 4, 'a.a(b.o)'))])
    fn = write_project(ctx, text, b)
    e, exc = ctx.call(E.Elf, ctx.path('app.elf'))
    ctx.check('refused', exc is None or isinstance(exc, E.Elf_Exception), repr(exc))
    ctx.check('accepted-iff', ctx.eq(good, exc is None) if not isinstance(good, bool) else good == (exc is None), repr(exc))
    e, exc2 = ctx.call(ctx.mod('memorymap').get_elf, fn)
    ctx.check('unusable-is-absent', exc2 is None and (e is None) == (exc is not None), repr(exc2))
    if exc is not None:
        m, exc3 = ctx.call(ctx.mod('memorymap').get, fn)
        ctx.check('report-without-elf', exc3 is None and m['memory_types']['IRAM']['used'] == 4, repr(exc3))
    ctx.observe('ok', exc is None)


def truncated(ctx, bits, big):
    b = elf_bytes(ctx, [('.text', 1, 2, 0x40080000, 4)], [('f', ctx.int('v', 0, 1000), 4, 2, 1)], bits=bits, big=big)
    n = len(b)
    hdr = 52 if bits == 32 else 64
    cut = ctx.choice('cut', sorted({0, 1, 4, 15, 16, 17, hdr - 1, hdr, hdr + 1, n - 41, n - 40, n - 2, n - 1} | set(range(20, n, 23))))
    E = ctx.mod('elf')
    fn = ctx.write_bytes('a.elf', b[:cut])
    e, exc = ctx.call(E.Elf, fn)
    ctx.check('refused', isinstance(exc, E.Elf_Exception), (cut, repr(exc)))


def scenarios(tier):
    out = [sc('ident', ident, 'one symbolic byte at each of the first 6 positions, both classes and byte orders')]
    for bits in (32, 64):
        for big in (False, True):
            n = f'{bits}{"be" if big else "le"}'
            k = 3 if tier == 'thorough' else 2
            out.append(sc(f'decode-{n}', decode, f'{k} sections and {k} symbols, all fields symbolic over their full width',
                          params=dict(bits=bits, big=big, nsec=k, nsym=k), cost=2))
            out.append(sc(f'many-{n}', decode, '12 sections and 60 symbols, all fields symbolic over their full width',
                          params=dict(bits=bits, big=big, nsec=12, nsym=60), cost=3, tick_limit=60000))
            out.append(sc(f'lengthy-{n}', lengthy, 'names of up to 5000 characters', params=dict(bits=bits, big=big), tick_limit=60000))
            out.append(sc(f'contents-{n}', contents, '3 sections with contents, 6 symbolic bytes', params=dict(bits=bits, big=big)))
            for dyn in (False, True):
                out.append(sc(f'tables-{n}' + ('-dyn' if dyn else ''), tables, 'section header, program header and 2 symbols'
                              + (' in two tables' if dyn else '') + ', all fields over their full width, shared names',
                              params=dict(bits=bits, big=big, dyn=dyn)))
            out.append(sc(f'beyond-{n}', beyond, 'contents at 7 offsets and 7 lengths', params=dict(bits=bits, big=big)))
            out.append(sc(f'unterminated-{n}', unterminated, 'string table without its last byte, name of up to 4 symbolic characters',
                          params=dict(bits=bits, big=big)))
            out.append(sc(f'truncated-{n}', truncated, 'file cut at about 30 lengths', params=dict(bits=bits, big=big)))
    return out
