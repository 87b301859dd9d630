"""Building blocks shared by the harnesses (no z3 here)."""

BIG = 1 << 24


def sc(name, fn, bound, cost=1, **kw):
    params = kw.pop('params', {})
    return dict(name=name, fn=fn, bound=bound, cost=cost, params=params, **kw)


def args(**kw):
    a = dict(archives=False, archive_details=None, archive_dependencies=False, files=False, diff=None,
             show_unchanged=False, show_unused=False, unify=False, abbrev=True, no_abbrev=False, filter=None,
             sort='1', sort_diff=False, sort_reverse=True, dep_reverse=False, dep_symbols=False, use_flash_size=False,
             format='table', use_dwarf=None, output_file=None, quiet=False, debug=False, no_color=False,
             force_terminal=None, input_file=None)
    a.update(kw)
    return a


CHILD = {'memory_types': 'sections', 'sections': 'archives', 'archives': 'object_files', 'object_files': 'symbols',
         'symbols': None}


def nodes(memmap):
    """Every entry of a memory map: (path tuple, level, info)."""
    out = []

    def rec(d, level, path):
        for name, info in d.items():
            p = path + (name,)
            out.append((p, level, info))
            c = CHILD[level]
            if c:
                rec(info[c], c, p)
    rec(memmap['memory_types'], 'memory_types', ())
    return out


def lookup(memmap, path):
    """Entry at path or None."""
    level, d, info = 'memory_types', memmap['memory_types'], None
    for name in path:
        if d is None or name not in d:
            return None
        info = d[name]
        c = CHILD[level]
        d = info[c] if c else None
        level = c
    return info


# ------------------------------------------------------------------ linker map text
def h16(ctx, n):
    t = ctx.hex(n)
    return '0x' + t[2:].rjust(16, '0')


def region_lines(ctx, regions):
    out = ['Memory Configuration', '', 'Name             Origin             Length             Attributes']
    for name, origin, length, attrs in regions:
        out.append(f'{name:<16} {h16(ctx, origin)} {h16(ctx, length)}' + (f' {attrs}' if attrs else ''))
    out.append('*default*        0x0000000000000000 0xffffffffffffffff')
    out += ['', 'Linker script and memory map', '']
    return out


def isec_lines(ctx, name, addr, size, file, two=None):
    """One input section the way the linker prints it: long names push the rest to the next line."""
    if two is None:
        two = len(name) >= 15
    if two:
        return [f' {name}', f'                {h16(ctx, addr)} {ctx.hex(size):>10} {file}']
    return [f' {name:<14} {h16(ctx, addr)} {ctx.hex(size):>10} {file}']


def fill_line(ctx, addr, size):
    return f' *fill*         {h16(ctx, addr)} {ctx.hex(size):>10} '


def data_line(ctx, addr, size, kind='LONG'):
    return f'                {h16(ctx, addr)} {ctx.hex(size):>10} {kind} 0x0'


def osec_lines(ctx, name, addr, size, body, two=None):
    if two is None:
        two = len(name) >= 16
    head = [name, f'                {h16(ctx, addr)} {ctx.hex(size):>10}'] if two else \
        [f'{name:<15} {h16(ctx, addr)} {ctx.hex(size):>10}']
    return head + body + ['']


def map_text(ctx, regions, osecs, target='esp32', crt=None):
    """osecs: list of (name, addr, size, [body lines])."""
    out = region_lines(ctx, regions)
    out += ['LOAD /x/crt0.o', f'                0x0000000000000000                IDF_TARGET_{target.upper()} = 0x0', '']
    for o in osecs:
        out += osec_lines(ctx, *o)
    if crt is not None:
        out += ['Cross Reference Table', '', 'Symbol                                            File']
        for sym, locs in crt:
            out.append(f'{sym:<49} {locs[0]}')
            for l in locs[1:]:
                out.append(' ' * 50 + l)
    return '\n'.join(out) + '\n'


def memmap_get(ctx, fn, **kw):
    mm = ctx.mod('memorymap')
    with ctx.quiet():
        return mm.get(fn, **kw)


# ------------------------------------------------------------------ ELF files
STT_NOTYPE, STT_OBJECT, STT_FUNC, STT_SECTION, STT_FILE = 0, 1, 2, 3, 4
SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_NOBITS, SHT_NOTE = 1, 2, 3, 8, 7
SHF_WRITE, SHF_ALLOC, SHF_EXEC = 1, 2, 4
SHN_ABS = 0xfff1


def elf_bytes(ctx, sections, symbols=(), bits=32, big=False, blobs=(), patch=None):
    """An ELF file as a list of bytes (some of them symbolic).

    sections: (name, type, flags, addr, size)  -- headers without contents
    symbols:  (name, value, size, info, shndx[, other])
    blobs:    (name, bytes)                     -- non-allocated sections with contents
    """
    w = 4 if bits == 32 else 8

    def strtab(names):
        out, pos = [0], []
        for n in names:
            pos.append(len(out) if len(n) else 0)
            if len(n):
                out += list(n.encode()) + [0]
        return out, pos

    names = [s[0] for s in sections] + [b[0] for b in blobs] + ['.symtab', '.strtab', '.shstrtab']
    shstr, shpos = strtab(names)
    symstr, sympos = strtab([s[0] for s in symbols])
    f = lambda n, size: ctx.field(n, size, big)
    symdata = []
    for nm, (_, value, size, info, shndx, other) in zip([0] + sympos, [('', 0, 0, 0, 0, 0)] + [(*s, 0)[:6] for s in symbols]):
        if bits == 32:
            symdata += f(nm, 4) + f(value, 4) + f(size, 4) + f(info, 1) + f(other, 1) + f(shndx, 2)
        else:
            symdata += f(nm, 4) + f(info, 1) + f(other, 1) + f(shndx, 2) + f(value, 8) + f(size, 8)
    ehsize = 52 if bits == 32 else 64
    shentsize = 40 if bits == 32 else 64
    body = []
    hdrs = [(0, 0, 0, 0, 0, 0, 0, 0, 0, 0)]
    for nm, (_, typ, flags, addr, size) in zip(shpos, sections):
        hdrs.append((nm, typ, flags, addr, ehsize, size, 0, 0, 1, 0))

    def add(idx, typ, data, link=0, entsize=0):
        hdrs.append((shpos[idx], typ, 0, 0, ehsize + len(body), len(data), link, 0, 1, entsize))
        body.extend(data)
    for i, (_, data) in enumerate(blobs):
        add(len(sections) + i, SHT_PROGBITS, list(data))
    nsec = len(sections) + len(blobs)
    add(-3, SHT_SYMTAB, symdata, link=nsec + 2, entsize=16 if bits == 32 else 24)
    add(-2, SHT_STRTAB, symstr)
    add(-1, SHT_STRTAB, shstr)
    ident = [0x7f, 0x45, 0x4c, 0x46, 1 if bits == 32 else 2, 2 if big else 1, 1] + [0] * 9
    ehdr = ident + f(2, 2) + f(94, 2) + f(1, 4) + f(0x40080000, w) + f(0, w) + f(ehsize + len(body), w) + f(0, 4) + \
        f(ehsize, 2) + f(32 if bits == 32 else 56, 2) + f(0, 2) + f(shentsize, 2) + f(len(hdrs), 2) + f(len(hdrs) - 1, 2)
    out = ehdr + body
    for h in hdrs:
        if bits == 32:
            for v in h:
                out += f(v, 4)
        else:
            for v, n in zip(h, (4, 4, 8, 8, 8, 8, 4, 4, 8, 8)):
                out += f(v, n)
    return out


def write_project(ctx, text, elf=None, name='app', proj=None, **kw):
    """Map, ELF file and project description of one project; returns the map path."""
    import json
    import os
    fn = ctx.write(f'{name}.map', text)
    if elf is not None:
        ctx.write_bytes(f'{name}.elf', elf)
        d = {'app_elf': os.path.basename(name) + '.elf', 'target': kw.pop('target', 'esp32'), 'build_dir': '/b', 'build_component_info': {}}
        d.update(proj or {})
        ctx.write(os.path.join(os.path.dirname(name), 'project_description.json'), json.dumps(d))
    return fn
