"""C11: debug information: every form is decoded and every symbol gets its compilation unit."""
from .common import sc, elf_bytes, SHT_PROGBITS, STT_FUNC, STT_OBJECT
from .dwarfgen import *

ASSUMPTIONS = ['well-formed compilation units; forms of DWARF 2 to 5 without indirect and addrx',
               'variable locations are empty, one address, one address with one more operation or start with another operation']


def leb(ctx, n, signed, at):
    """LEB128 numbers of exactly n bytes, all bits symbolic."""
    bs = []
    val = 0
    for i in range(n):
        b = ctx.byte(f'b{i}', 0, 127)
        val = val + b * (1 << (7 * i))
        bs.append(b + 128 if i < n - 1 else b)
    want = val
    if signed:
        want = ctx.ite(b >= 64, val - (1 << (7 * n)), val)
    pre = [ctx.byte(f'p{i}') for i in range(at)]
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [], []))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
    d = ctx.bytes(pre + bs + [0x55])
    got, off = (e.get_sleb128 if signed else e.get_uleb128)(d, at)
    ctx.check('value', ctx.eq(got, want), (got, want))
    ctx.check('consumed', ctx.eq(off, at + n), off)
    ctx.observe('v', got)


def payload(ctx, form, asize, big, dw64, tag='', version=4):
    """(symbolic bytes of the form, value or None if the value is not looked at)"""
    f = lambda n, size: ctx.field(n, size, big)
    osz = 8 if dw64 else 4
    I = lambda bits: ctx.int('x' + tag, 0, (1 << bits) - 1)
    fixed = dict(addr=asize, data1=1, data2=2, data4=4, data8=8, data16=16, flag=1, sec_offset=osz, strp=osz, line_strp=osz,
                 strp_sup=osz, ref_addr=asize if version == 2 else osz, strx1=1, strx2=2, strx3=3, strx4=4, ref_sup4=4, ref_sup8=8)
    if form in fixed:
        x = I(8 * fixed[form])
        return f(x, fixed[form]), x
    if form == 'ref_sig8':
        return f(I(64), 8), None
    if form in ('udata', 'strx', 'loclistx', 'rnglistx', 'sdata'):
        a, b = ctx.byte('x0' + tag, 0, 127), ctx.byte('x1' + tag, 0, 127)
        v = a + b * 128
        if form == 'sdata':
            v = ctx.ite(b >= 64, v - (1 << 14), v)
        return [a + 128, b], v if form in ('udata', 'strx', 'sdata') else None
    if form in ('block1', 'block2', 'block4', 'block', 'exprloc'):
        n = ctx.choice('len' + tag, [0, 1, 3])
        data = [ctx.byte(f'y{i}' + tag) for i in range(n)]
        ln = {'block1': 1, 'block2': 2, 'block4': 4}.get(form)
        return (f(n, ln) if ln else uleb(n)) + data, ctx.bytes(data)
    if form == 'flag_present':
        return [], True
    if form == 'string':
        n = ctx.choice('len' + tag, [0, 2])
        data = [ctx.byte(f'y{i}' + tag, 1, 127) for i in range(n)]
        return data + [0], ctx.bytes(data)
    raise AssertionError(form)


def forms(ctx, group, version, asize, big, dw64):
    """A function whose entry holds an attribute of each form in front of its address."""
    form = ctx.choice('form', group)
    bits = 32 if asize == 4 else 64
    addr = ctx.int('addr', 1, (1 << 31))
    if form == 'implicit_const':
        a, b = ctx.byte('x0', 0, 127), ctx.byte('x1', 0, 127)
        const, data = [a + 128, b], []
        want = ctx.ite(b >= 64, a + b * 128 - (1 << 14), a + b * 128)
        spec = (AT_x, form, const)
    else:
        data, want = payload(ctx, form, asize, big, dw64, version=version)
        spec = (AT_x, form)
    f = lambda n, size: ctx.field(n, size, big)
    ab = abbrevs([(1, TAG_CU, True, [(AT_name, 'string')]), (2, TAG_SUB, False, [spec, (AT_low_pc, 'addr')])])
    name = list(b'/p/c/x.c') + [0]
    dies = [1] + name + [2] + data + f(addr, asize) + [0]
    info = cu(ctx, dies, version, asize, 0, big, dw64)
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)], [('f', addr, 4, STT_FUNC, 1)], bits=bits,
                                            big=big, blobs=[('.debug_abbrev', ab), ('.debug_info', info)]))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        if want is not None:
            c = e.CUs[0]
            subs = [d for d in c.get_DIEs().values() if ctx.eq(d['tag'], TAG_SUB) is True or d['tag'] == TAG_SUB]
            got = [d['attrs'][AT_x]['value'] for d in subs]
            ctx.check('value', len(got) == 1 and ctx.eq(got[0], want), (form, got, want))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        syms = e.add_cus_to_symbols()
    ctx.check('unit', len(syms) == 1 and [s.cu_name for s in syms.values()] == ['/p/c/x.c'], [s.cu_name for s in syms.values()])
    ctx.observe('n', [s.cu_name for s in syms.values()])


def units(ctx, kind, version, big, dw64, asize=4):
    """Two units; a function or variable of the second at a symbolic address, directly or via its abstract origin."""
    f = lambda n, size: ctx.field(n, size, big)
    a1, a2 = ctx.int('a1', 1, 1 << 31), ctx.int('a2', 1, 1 << 31)
    s1 = ctx.int('s1', 1, 1 << 31)
    n1, n2 = '/p/a/one.c', '/p/b/two.c'
    h = hdr_len(version, dw64)
    str_form = ctx.choice('strform', ['string', 'strp'] + (['line_strp'] if version >= 5 else []))
    strs = list(b'pad\0') + list(n1.encode()) + [0] + list(n2.encode()) + [0]

    def nm(n):
        if str_form == 'string':
            return list(n.encode()) + [0]
        return f(4 if n == n1 else 4 + len(n1) + 1, 8 if dw64 else 4)
    # abbreviation 3 uses a 2-byte code in the last scenario
    if kind == 'func':
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, str_form)]), (2, TAG_SUB, True, [(AT_low_pc, 'addr')]), (3, TAG_LEX, False, [])])
        d1 = [1] + nm(n1) + [2] + f(a1, asize) + [3, 0] + [0]
        d2 = [1] + nm(n2) + [2] + f(a2, asize) + [3, 3, 0] + [0]
    elif kind == 'var':
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, str_form)]), (2, TAG_VAR, False, [(AT_location, 'exprloc')]), (3, TAG_VAR, False, [])])
        op = ctx.choice('op', ['addr', 'empty', 'other', 'plus', 'value', 'tls'])
        loc2 = {'addr': [1 + asize, 3] + f(a2, asize), 'empty': [0], 'other': [2, 0x91, 0x10],
                # an address that is only the start of a calculation, a value or a thread-local offset is not where the variable lives
                'plus': [3 + asize, 3] + f(a2, asize) + [0x23, 0x10], 'value': [2 + asize, 3] + f(a2, asize) + [0x9f],
                'tls': [2 + asize, 3] + f(a2, asize) + [0x9b]}[op]
        d1 = [1] + nm(n1) + [2] + [1 + asize, 3] + f(a1, asize) + [3, 0]
        d2 = [1] + nm(n2) + [3] + [2] + loc2 + [0]
    elif kind == 'local':
        # static variables of a function and of a block in a function
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, str_form)]), (2, TAG_SUB, True, [(AT_low_pc, 'addr')]), (3, TAG_LEX, True, []),
                      (4, TAG_VAR, False, [(AT_name, 'string'), (AT_location, 'exprloc')])])
        v = lambda a: [4] + list(b'v\0') + [1 + asize, 3] + f(a, asize)
        d1 = [1] + nm(n1) + [2] + f(0, asize) + v(a1) + [0, 0]
        d2 = [1] + nm(n2) + [2] + f(0, asize) + [3, 3] + v(a2) + [0, 0, 0, 0]
    else:
        # abstract instance in one unit, out-of-line instance with an address in the other
        ref = ctx.choice('ref', ['ref_addr'] if kind == 'origin-cross' else ['ref1', 'ref2', 'ref4', 'ref8', 'ref_udata', 'ref_addr'])
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, str_form)]), (2, TAG_SUB, False, [(AT_x, 'data1')]),
                      (3, TAG_SUB, False, [(AT_low_pc, 'addr'), (AT_abstract_origin, ref)])])
        pos = 1 + len(nm(n1))  # of the abstract entry inside the unit's entries
        size = {'ref1': 1, 'ref2': 2, 'ref4': 4, 'ref8': 8, 'ref_addr': asize if version == 2 else 8 if dw64 else 4}.get(ref)
        if kind == 'origin-cross':
            d1 = [1] + nm(n1) + [2, 7] + [3] + f(a1, asize) + f(h + pos, size) + [0]
            d2 = [1] + nm(n2) + [3] + f(a2, asize) + f(h + pos, size) + [0]
        else:
            def r(base):
                off = h + pos + (base if ref == 'ref_addr' else 0)
                return f(off, size) if size else [0x80 | off, 0]
            d1 = [1] + nm(n1) + [2, 7] + [3] + f(a1, asize) + r(0) + [0]
            pos = 1 + len(nm(n2))
            len1 = len(cu(ctx, d1, version, asize, 0, big, dw64))
            d2 = [1] + nm(n2) + [2, 7] + [3] + f(a2, asize) + r(len1) + [0]
    # each unit has its own abbreviation table
    info = cu(ctx, d1, version, asize, 0, big, dw64) + cu(ctx, d2, version, asize, len(ab), big, dw64)
    blobs = [('.debug_abbrev', ab + ab), ('.debug_info', info), ('.debug_str', strs), ('.debug_line_str', strs)]
    typ = STT_OBJECT if kind in ('var', 'local') else STT_FUNC
    shndx = ctx.int('shndx', 0, 0xffff)
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)], [('s', s1, 4, typ, shndx)], big=big, blobs=blobs,
                                            bits=8 * asize))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        syms, exc = ctx.call(e.add_cus_to_symbols)
    ctx.check('no-error', exc is None, repr(exc))
    if exc is not None:
        return
    ctx.check('absolute', ctx.eq(ctx.eq(shndx, 0xfff1), len(syms) == 0) if ctx.sym else (shndx == 0xfff1) == (len(syms) == 0))
    if not len(syms):
        return
    got = [s.cu_name for s in syms.values()]
    ctx.check('one', len(got) == 1, got)
    w2 = n1 if kind == 'origin-cross' else n2
    m1, m2 = ctx.eq(s1, a1), ctx.eq(s1, a2)
    if kind == 'var' and op != 'addr':
        m2 = False
    g = got[0]
    # whether a calculated location is understood is left open
    m3 = ctx.And(g == n2, ctx.eq(s1, a2 + 16)) if kind == 'var' and op == 'plus' else False
    ctx.check('unit', ctx.Or(m3, ctx.And(g == n1, m1), ctx.And(g == w2, m2), ctx.And(g is None, ctx.Not(m1), ctx.Not(m2))), got)
    ctx.observe('g', got)


def wide(ctx):
    """Abbreviation codes, tags and attribute numbers beyond one byte; more than 127 abbreviations."""
    addr = ctx.int('addr', 1, 1 << 31)
    n = ctx.choice('n', [126, 127, 128, 200])
    ents = [(1, TAG_CU, True, [(AT_name, 'string')])]
    for c in range(2, n + 1):
        ents.append((c, TAG_BASE, False, [(AT_language, 'data1')]))
    ents.append((n + 1, TAG_SUB, False, [(AT_x, 'data1'), (AT_low_pc, 'addr')]))
    dies = [1] + list(b'/q.c\0') + uleb(n) + [ctx.byte('l')] + uleb(n + 1) + [ctx.byte('x')] + ctx.field(addr, 4) + [0]
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)], [('f', addr, 4, STT_FUNC, 1)],
                                            blobs=[('.debug_abbrev', abbrevs(ents)), ('.debug_info', cu(ctx, dies))]))
    with ctx.quiet():
        syms = ctx.mod('elf').Elf(fn).add_cus_to_symbols()
    ctx.check('unit', [s.cu_name for s in syms.values()] == ['/q.c'])


def numbered(ctx):
    """Abbreviation codes in any order and with gaps, two tables that use the same codes for different things."""
    a1, a2 = ctx.int('a1', 1, 1 << 31), ctx.int('a2', 1, 1 << 31)
    ctx.assume(ctx.Not(ctx.eq(a1, a2)))
    tabs, dies = [], []
    for i, a in enumerate((a1, a2)):
        c = ctx.choice(f'codes{i}', [(1, 2, 3), (3, 2, 1), (2, 3, 1), (7, 1, 300), (128, 5, 6)])
        ents = [(c[0], TAG_CU, True, [(AT_name, 'string')]), (c[1], TAG_SUB, False, [(AT_x, 'data1'), (AT_low_pc, 'addr')]),
                (c[2], TAG_BASE, False, [(AT_language, 'data1')])]
        order = ctx.choice(f'order{i}', [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
        tabs.append(abbrevs([ents[k] for k in order]))
        dies.append(uleb(c[0]) + list(f'/q{i}.c\0'.encode()) + uleb(c[2]) + [ctx.byte(f'l{i}')] + uleb(c[1]) + [ctx.byte(f'x{i}')] + ctx.field(a, 4) + [0])
    info = cu(ctx, dies[0]) + cu(ctx, dies[1], abbrev_off=len(tabs[0]))
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)], [('f', a1, 4, STT_FUNC, 1), ('g', a2, 4, STT_FUNC, 1)],
                                            blobs=[('.debug_abbrev', tabs[0] + tabs[1]), ('.debug_info', info)]))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        e.add_cus_to_symbols()
    ctx.check('unit', [s.cu_name for s in e.symbols[1:]] == ['/q0.c', '/q1.c'], [s.cu_name for s in e.symbols])


def long(ctx, big):
    """References in a unit of more than 64 KiB that is not the first."""
    f = lambda n, size: ctx.field(n, size, big)
    a1, a2 = ctx.int('a1', 1, 1 << 31), ctx.int('a2', 1, 1 << 31)
    ref = ctx.choice('ref', ['ref2', 'ref4', 'ref8', 'ref_udata', 'ref_addr'])
    far = ctx.flag('far') if ref != 'ref2' else False
    ab = abbrevs([(1, TAG_CU, True, [(AT_name, 'string')]), (2, TAG_SUB, False, [(AT_x, 'data1')]),
                  (3, TAG_SUB, False, [(AT_low_pc, 'addr'), (AT_abstract_origin, ref)]), (4, TAG_BASE, False, [(AT_x, 'block4')])])
    n1, n2 = list(b'/one.c\0'), list(b'/two.c\0')
    d1 = cu(ctx, [1] + n1 + [3] + f(a1, 4) + {'ref2': f(11 + 1 + 7, 2), 'ref4': f(19, 4), 'ref8': f(19, 8), 'ref_udata': [19],
                                              'ref_addr': f(19, 4)}[ref] + [0], big=big)
    # the first unit refers to its own entry, which is the out-of-line instance itself
    size = {'ref2': 2, 'ref4': 4, 'ref8': 8, 'ref_addr': 4, 'ref_udata': 3}[ref]
    pad = [4] + f(70000, 4) + [0] * 70000
    pos = 11 + 1 + len(n2)
    inst = 1 + 4 + size
    target = pos + inst + len(pad) if far else pos + inst
    base = target + (len(d1) if ref == 'ref_addr' else 0)
    r = f(base, size) if ref != 'ref_udata' else [base & 127 | 128, base >> 7 & 127 | 128, base >> 14]
    body = [3] + f(a2, 4) + r + (pad + [2, 7] if far else [2, 7] + pad)
    info = d1 + cu(ctx, [1] + n2 + body + [0], big=big)
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)], [('s', a2, 4, STT_FUNC, 1)], big=big,
                                            blobs=[('.debug_abbrev', ab), ('.debug_info', info)]))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        syms, exc = ctx.call(e.add_cus_to_symbols)
    ctx.check('no-error', exc is None, repr(exc))
    if exc is None:
        got = [s.cu_name for s in syms.values()]
        ctx.check('unit', got in (['/two.c'], ['/one.c']) and ctx.Or(got == ['/two.c'], ctx.eq(a1, a2)), got)


def several(ctx, n, depth):
    """n units with functions and variables below nested blocks; the symbol belongs to one of them."""
    which, func = ctx.choice('which', [0, 2, n // 2, n - 1]), ctx.flag('func')
    lo = ctx.int('lo', 1, 1 << 30)
    step = ctx.int('step', 1, 1 << 16)
    own = ctx.flag('own-table')
    ab = abbrevs([(1, TAG_CU, True, [(AT_name, 'string')]), (2, TAG_SUB, False, [(AT_low_pc, 'addr')]), (3, TAG_VAR, False, [(AT_location, 'exprloc')]),
                  (4, TAG_NS, True, []), (5, TAG_LEX, True, [(AT_x, 'data1')])])
    info = []
    for i in range(n):
        a, b = lo + step * (2 * i), lo + step * (2 * i + 1)
        d = depth if i % 2 else 0
        # the function is inside, the variable behind the blocks or the other way round
        fun, var = [2] + ctx.field(a, 4), [3, 5, 3] + ctx.field(b, 4)
        inner = [4] * (d // 2) + [5, 7] * (d - d // 2) + (fun if i % 4 < 2 else var) + [0] * d + (var if i % 4 < 2 else fun)
        info += cu(ctx, [1] + list(f'/p/u{i}.c'.encode()) + [0] + inner + [0], 4, 4, len(ab) * i if own else 0)
    addr = lo + step * (2 * which + (0 if func else 1))
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)],
                                            [('f', addr, 4, STT_FUNC if func else STT_OBJECT, 1)],
                                            blobs=[('.debug_abbrev', ab * n if own else ab), ('.debug_info', info)]))
    with ctx.quiet():
        syms, exc = ctx.call(lambda: ctx.mod('elf').Elf(fn).add_cus_to_symbols())
    ctx.check('no-error', exc is None, repr(exc))
    if exc is None:
        ctx.check('unit', [s.cu_name for s in syms.values()] == [f'/p/u{which}.c'], [s.cu_name for s in syms.values()])


def twice(ctx):
    """Asking twice gives the same answer."""
    a1 = ctx.int('a1', 1, 1 << 31)
    var = ctx.flag('var')
    strf = ctx.choice('strform', ['string', 'strp'])
    unit = '/' + 'q' * ctx.choice('length', [1, 253, 300, 5000]) + '.c'
    nm = list(unit.encode()) + [0] if strf == 'string' else ctx.field(0, 4)
    if var:
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, strf)]), (2, TAG_VAR, False, [(AT_location, 'exprloc')])])
        d = [1] + nm + [2, 5, 3] + ctx.field(a1, 4) + [0]
    else:
        ab = abbrevs([(1, TAG_CU, True, [(AT_name, strf)]), (2, TAG_SUB, False, [(AT_low_pc, 'addr')])])
        d = [1] + nm + [2] + ctx.field(a1, 4) + [0]
    fn = ctx.write_bytes('a.elf', elf_bytes(ctx, [('.text', SHT_PROGBITS, 6, 0x1000, 64)],
                                            [('f', a1, 4, STT_OBJECT if var else STT_FUNC, 1)],
                                            blobs=[('.debug_abbrev', ab), ('.debug_info', cu(ctx, d)), ('.debug_str', list(unit.encode()) + [0])]))
    with ctx.quiet():
        e = ctx.mod('elf').Elf(fn)
        first, exc = ctx.call(lambda: [s.cu_name for s in e.add_cus_to_symbols().values()])
        second, exc2 = ctx.call(lambda: [s.cu_name for s in e.add_cus_to_symbols().values()])
    ctx.check('same', exc is None and exc2 is None and first == second == [unit], (repr(exc2), first, second))


def scenarios(tier):
    out = []
    for n in list(range(1, 6)) + [9, 10, 11] if tier == 'quick' else range(1, 13):
        out.append(sc(f'uleb-{n}', leb, f'unsigned LEB128 of {n} bytes, all bits symbolic', params=dict(n=n, signed=False, at=n % 3)))
        out.append(sc(f'sleb-{n}', leb, f'signed LEB128 of {n} bytes, all bits symbolic', params=dict(n=n, signed=True, at=n % 3)))
    allf = ['addr', 'block1', 'block2', 'block4', 'block', 'data1', 'data2', 'data4', 'data8', 'data16', 'udata', 'sdata',
            'exprloc', 'flag', 'flag_present', 'sec_offset', 'loclistx', 'rnglistx', 'ref_sig8', 'ref_sup4', 'ref_sup8', 'string',
            'strp', 'line_strp', 'strp_sup', 'strx', 'strx1', 'strx2', 'strx3', 'strx4', 'implicit_const', 'ref_addr']
    for ver, asize, big, dw64 in [(4, 4, False, False), (5, 4, False, False), (5, 4, True, False), (4, 8, False, False), (3, 4, False, True),
                                  (2, 4, False, False), (2, 8, False, False), (2, 8, True, False),
                                  (5, 8, True, True)]:
        tag = f'v{ver}-a{asize}-{"be" if big else "le"}' + ('-dwarf64' if dw64 else '')
        out.append(sc(f'forms-{tag}', forms, f'{len(allf)} forms with symbolic payload in front of a symbolic address', cost=2,
                      params=dict(group=allf, version=ver, asize=asize, big=big, dw64=dw64)))
        for kind in ('func', 'var', 'local', 'origin', 'origin-cross'):
            out.append(sc(f'{kind}-{tag}', units, '2 units with one entry each at symbolic addresses, 1 symbol at a symbolic address', cost=2,
                          params=dict(kind=kind, version=ver, big=big, dw64=dw64, asize=asize)))
    out.append(sc('numbered', numbered, 'abbreviation codes in any order and with gaps, 2 units, addresses symbolic'))
    out.append(sc('wide', wide, 'abbreviation tables of 127 to 201 entries'))
    for big in (False, True):
        out.append(sc(f'long-{"be" if big else "le"}', long, 'second unit of 70 kB, references to its start and end', params=dict(big=big), cost=3))
    out.append(sc('several', several, '12 units, functions and variables up to 25 levels deep, shared or own abbreviation tables', params=dict(n=12, depth=24),
                  tick_limit=60000, cost=3))
    out.append(sc('twice', twice, 'repeated queries', tick_limit=90000))
    return out
