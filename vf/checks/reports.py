"""Reading the tool's reports back."""
import csv
import io

from .common import map_text, isec_lines, fill_line, write_project, elf_bytes, SHT_PROGBITS, SHF_ALLOC, STT_FUNC

CHIP = 'esp32s3'
REGIONS = [('iram0_0_seg', 0x40374000, 0x4000, 'xr'), ('dram0_0_seg', 0x3FC88000, 0x10000, 'rw'),
           ('drom0_0_seg', 0x3C000020, 0x100000, 'r')]
# output section -> address
PLACE = {'.iram0.text': 0x40374400, '.dram0.data': 0x3FC88000, '.dram1.data': 0x3FC8C000, '.dram0.bss': 0x3FC90000,
         '.flash.rodata': 0x3C000020, '.flash.text_end': 0x3C080000,
         '.flash."q"x."d"': 0x3FC88000, '.flash.y[b.d[e': 0x3FC8C000, '.flash.z].d]e': 0x3FC90000}


def project(ctx, who, osecs, syms=(), crt=None, pad=False, regions=None, proj=None, stem=None, target=CHIP, memo=None):
    """osecs: list of (output section, [(input section, file)]); symbolic sizes 1..4096."""
    out, headers, elfsyms, place = [], [], [], {}
    n = 0
    for name, isecs in osecs:
        cur = a0 = PLACE[name]
        body = []
        for k, (sec, f) in enumerate(isecs):
            size = memo[n] if memo and n in memo else ctx.int(f'{who}{n}', 1, 1 << 12)
            if memo is not None:
                memo[n] = size
            body += isec_lines(ctx, sec, cur, size, f)
            place.setdefault(sec, (cur, size))
            cur = cur + size
            if pad and k == 0:
                fill = ctx.int(f'{who}p{n}', 1, 16)
                body.append(fill_line(ctx, cur, fill))
                cur = cur + fill
            n += 1
        if not isecs:
            cur = cur + ctx.int(f'{who}e{n}', 1, 64)
            n += 1
        headers.append((name, SHT_PROGBITS, SHF_ALLOC, a0, cur - a0))
        out.append((name, a0, cur - a0, body))
    for sname, sec in syms:
        a, size = place[sec]
        elfsyms.append((sname, a, size, STT_FUNC, 1))
    text = map_text(ctx, regions or REGIONS, out, target=target, crt=crt)
    elf = elf_bytes(ctx, headers, elfsyms) if syms else None
    return write_project(ctx, text, elf, name=stem or who, target=target, proj=proj)


def pipeline(ctx, fn, ref, a):
    """The memory map a report is about, by the documented meaning of the options."""
    mm = ctx.mod('memorymap')
    load = bool(a['archive_details'] or a['format'] == 'raw')
    with ctx.quiet():
        ms = []
        for f in [fn] + ([ref] if ref else []):
            m = mm.get(f, load_symbols=load)
            if not a['show_unused']:
                mm.remove_unused(m)
            if not a['use_flash_size']:
                mm.ignore_flash_size(m)
            ms.append(m)
        m = mm.diff(*ms) if ref else ms[0]
        if a['unify']:
            mm.unify(m)
    return m


def argv(fn, ref, a):
    out = [fn, '--format', a['format']]
    if ref:
        out += ['--diff', ref]
    for k in ('archives', 'files', 'archive_dependencies', 'show_unused', 'show_unchanged', 'unify', 'no_abbrev', 'dep_reverse',
              'dep_symbols', 'use_flash_size', 'sort_diff'):
        if a[k]:
            out.append('--' + k.replace('_', '-'))
    if a['archive_details']:
        out += ['--archive-details', a['archive_details']]
    if a['sort'] != '1':
        out += ['--sort', a['sort']]
    if not a['sort_reverse']:
        out.append('--sort-reverse')
    for p in a['filter'] or []:
        out += ['-F', p]
    return out


def table_rows(text):
    """(header cells, rows) of a table."""
    head, rows = None, []
    for line in text.splitlines():
        if line.startswith('┃'):
            head = [c.strip() for c in line.strip('┃').split('┃')]
        elif line.startswith('│'):
            rows.append([c.strip() for c in line[1:-1].split('│')])
    return head, rows


def csv_rows(text):
    rows = [[c.strip() for c in r] for r in csv.reader(io.StringIO(text), strict=True)]
    return (rows[0] if rows else None), rows[1:]


def tree_rows(text):
    """(path of labels) per line."""
    out, path = [], []
    for line in text.splitlines()[1:]:
        i = 0
        while line[i:i + 4] in ('│   ', '    ', '├── ', '└── '):
            i += 4
            if line[i - 4:i] in ('├── ', '└── '):
                break
        depth = i // 4
        path = path[:depth - 1] + [line[i:]]
        out.append(tuple(path))
    return out
