"""C18: every report format shows the figures of the memory map."""
from .common import sc, args, CHILD
from . import reports as R

ASSUMPTIONS = ['the memory map behind the report is obtained through the public functions (decided by C01..C15)',
               'sizes 1..4096 per input section; names of the scenario, also with brackets, quotes and blanks']

X, Y = '/b/x/libx.a', '/b/y/liby.a'
PLAIN = [('.dram0.data', [('.data.v', f'{X}(m.o)'), ('.data.w', f'{Y}(n.o)')]), ('.dram0.bss', [('.bss.z', f'{X}(m.o)')]),
         ('.flash.rodata', [('.rodata.c', f'{Y}(n.o)')]), ('.flash.text_end', [])]
ONE = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.flash.rodata', [('.rodata.c', f'{Y}(n.o)')])]
REF = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.iram0.text', [('.text.f', f'{Y}(k.o)')])]
REF2 = [('.dram0.data', [('.data.v', f'{X}(m.o)')])]
DUP = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.dram1.data', [('.data.w', f'{Y}(n.o)')])]
GONE = [('.dram0.data', [('.data.v', f'{X}(m.o)')]), ('.dram0.bss', [('.bss.z', f'{Y}(n.o)')])]
SMALL = [('dram0_0_seg', 0x3FC88000, 0x800, 'rw'), ('drom0_0_seg', 0x3C000020, 0x800, 'r')]
# names which mean something to the terminal library or to the output format
ODD = [('.dram0.data', [('.data.[bold]v', '/b/[red]/lib[x].a([m].o)'), ('.data.w', '/b/y/liby.a([/n].o)')]),
       ('.flash.rodata', [('.rodata.[c]', '/b/[red]/lib[x].a([m].o)')])]
LONG = [('.dram0.data', [('.data.' + 'v' * 300, '/b' + '/a_long_directory' * 20 + '/lib' + 'x' * 260 + '.a(' + 'm' * 300 + '.o)'), ('.data.w', f'{Y}(n.o)')])]
QUOTED = [('.dram0.data', [('.data.v', '/b/my  "q" dir/lib  q.a(m  "a".o)')])]
# a Windows path, an emoji code, an escaped bracket, a link, text that looks like a figure
WEIRD = [('.dram0.data', [('.data.:bug:', 'C:\\b\\[x]/lib:bug:.a(m\\[o].o)'), ('.data.{x}', '/b/{y}/lib%s.a([link=x]n.o)'), ('.data.100%', "/b/y/lib'y'.a(-12 +3.o)")])]

SECTIONS = [('.flash."q"x."d"', [('.data."v', '/b/a/lib[x.a(m].o)')]), ('.flash.y[b.d[e', [('.data.[w', '/b/b/libx]y.a(n[.o)')]),
            ('.flash.z].d]e', [('.data.]u', '/b/a/lib[x.a(]k.o)')])]


def label(name, info, a):
    return info['abbrev_name'] if a['abbrev'] and 'abbrev_name' in info else name


def nums_eq(ctx, tag, cell, value, diff, isdiff, near=False, info=None):
    n = ctx.nums(cell)
    want = [value] + ([diff] if isdiff else [])
    if len(n) != len(want):
        return ctx.check(tag, False, (cell, info))
    ctx.check(tag, ctx.And(*[(ctx.near if near else ctx.eq)(x, w) for x, w in zip(n, want)]), (cell, info))


def check_raw(ctx, r, m, a, kind):
    got = ctx.loads(r.out)
    ctx.check('raw', ctx.deep_eq(got, m), r.out[:300])


def check_json2(ctx, r, m, a, kind):
    mm = ctx.mod('memorymap')
    got = ctx.loads(r.out)
    if kind != 'summary':
        fn = {'archives': mm.get_archives_summary, 'files': mm.get_object_files_summary, 'details': mm.get_symbols_summary}[kind]
        with ctx.quiet():
            exp = fn(m, a)
        ctx.check('json2.entries', ctx.deep_eq(got, exp), (list(got), list(exp)))
        return
    ctx.check('json2.total', ctx.eq(got['total_size'], m['image_size']))
    lay = {x['name']: x for x in got['layout']}
    ctx.check('json2.types', len(lay) == len(got['layout']) and set(lay) == set(m['memory_types']), list(lay))
    for tn, t in m['memory_types'].items():
        if tn not in lay:
            continue
        x = lay[tn]
        ctx.check('json2.type', ctx.And(ctx.eq(x['total'], t['size']), ctx.eq(x['used'], t['used'])), tn)
        ctx.check('json2.free', ctx.eq(x['free'], ctx.ite(ctx.eq(t['size'], 0), 0, t['size'] - t['used'])), tn)
        parts = {}
        for sn, s in t['sections'].items():
            l = label(sn, s, a)
            parts[l] = parts.get(l, 0) + s['size']
        ctx.check('json2.parts', set(parts) == set(x['parts']), (list(parts), list(x['parts'])))
        for l, v in parts.items():
            if l in x['parts']:
                ctx.check('json2.part', ctx.eq(x['parts'][l]['size'], v), (tn, l))


def shown(m, a):
    return m


def check_rows(ctx, head, rows, m, a, kind, isdiff):
    mm = ctx.mod('memorymap')
    if kind == 'summary':
        ctx.check('rows.header', head == ['Memory Type/Section', 'Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]'], head)
        with ctx.quiet():
            mm.trim(m, a)
        want = []
        for tn, t in m['memory_types'].items():
            want.append((tn, t, t))
            want += [(label(sn, s, a), s, t) for sn, s in t['sections'].items()]
        names = sorted(w[0] for w in want)
        ctx.check('rows.names', sorted(r[0] for r in rows) == names, (rows, names))
        if sorted(r[0] for r in rows) != names:
            return
        cur = None
        for row in rows:
            cands = [w for w in want if w[0] == row[0] and (w[1] is w[2] or w[2] is cur)]
            ctx.check('rows.parent', len(cands) == 1, row)
            if len(cands) != 1:
                return
            name, x, t = cands[0]
            top = x is t
            if top:
                cur = t
            used, used_d = (x['used'], x['used_diff']) if top else (x['size'], x['size_diff'])
            nums_eq(ctx, 'rows.used', row[1], used, used_d, isdiff, info=name)
            if ctx.fork(ctx.eq(t['size'], 0)):
                ctx.check('rows.blank', row[2:] == ['', '', ''], row)
                continue
            pct = used * 100 / t['size']
            osize = t['size'] - t['size_diff']
            if ctx.fork(ctx.eq(osize, 0)):
                pct_d = pct
            else:
                pct_d = pct - (used - used_d) * 100 / osize
            nums_eq(ctx, 'rows.pct', row[2], pct, pct_d, isdiff, near=True, info=name)
            if top:
                nums_eq(ctx, 'rows.remain', row[3], t['size'] - t['used'], t['size_diff'] - t['used_diff'], isdiff, info=name)
                nums_eq(ctx, 'rows.total', row[4], t['size'], t['size_diff'], isdiff, info=name)
            else:
                ctx.check('rows.section-blank', row[3:] == ['', ''], row)
        return
    fn = {'archives': mm.get_archives_summary, 'files': mm.get_object_files_summary, 'details': mm.get_symbols_summary}[kind]
    with ctx.quiet():
        exp = mm.get_summary_filtered(fn(m, a), a)
    cols = [{'archives': 'Archive File', 'files': 'Object File', 'details': 'Symbol'}[kind], 'Total Size']
    for e in exp.values():
        for tn, t in e['memory_types'].items():
            cols.append(tn)
            cols += [label(sn, s, a) for sn, s in t['sections'].items()]
        break
    ctx.check('rows.header', head == cols, (head, cols))
    want = {}
    for k, e in exp.items():
        want.setdefault(label(k, e, a), []).append(e)
    ctx.check('rows.names', sorted(r[0] for r in rows) == sorted(n for n, es in want.items() for _ in es), rows)
    for row in rows:
        es = want.get(row[0], [])
        if len(es) != 1:
            continue
        vals = [(es[0]['size'], es[0]['size_diff'])]
        for t in es[0]['memory_types'].values():
            vals.append((t['size'], t['size_diff']))
            vals += [(s['size'], s['size_diff']) for s in t['sections'].values()]
        ctx.check('rows.width', len(row) == len(vals) + 1, row)
        for c, (v, d) in zip(row[1:], vals):
            nums_eq(ctx, 'rows.cell', c, v, d, isdiff, info=row[0])


def check_table(ctx, r, m, a, kind):
    head, rows = R.table_rows(r.out)
    check_rows(ctx, head, rows, m, a, kind, bool(a['diff']))
    if kind == 'summary':
        n = [l for l in r.err.splitlines() if l.startswith('Total image size:')]
        ctx.check('image-line', len(n) == 1)
        if n:
            want = [m['image_size']] + ([m['image_size_diff']] if a['diff'] else [])
            got = ctx.nums(n[0].replace('.bin', ''))
            ctx.check('image', len(got) == len(want) and ctx.all_eq(zip(got, want)), n[0])
    if a['diff']:
        lines = r.err.splitlines()
        ctx.check('diff-info', any(l.startswith('CURRENT') and f'"{m["project_path"]}"' in l for l in lines) and
                  any(l.startswith('REFERENCE') and f'"{m["project_path_diff"]}"' in l for l in lines), lines[:3])


def check_csv(ctx, r, m, a, kind):
    head, rows = R.csv_rows(r.out)
    check_rows(ctx, head, rows, m, a, kind, bool(a['diff']))


def check_tree(ctx, r, m, a, kind):
    mm = ctx.mod('memorymap')
    with ctx.quiet():
        mm.trim(m, a)
    isdiff = bool(a['diff'])
    want = []

    def rec(d, level, path):
        for name, info in d.items():
            l = name if level in ('memory_types', 'symbols') else label(name, info, a)
            want.append((path + (l,), level, info))
            if CHILD[level]:
                rec(info[CHILD[level]], CHILD[level], path + (l,))
    rec(m['memory_types'], 'memory_types', ())
    got = R.tree_rows(r.out)
    ctx.check('tree.count', len(got) == len(want), (got, [w[0] for w in want]))
    used = set()
    for g in got:
        hit = None
        for i, (p, lv, info) in enumerate(want):
            if i in used or len(p) != len(g):
                continue
            if all(x.startswith(y + ' ') and not ctx_strip(x[len(y):]) for x, y in zip(g, p)):
                hit = i
                break
        ctx.check('tree.known', hit is not None, g)
        if hit is None:
            continue
        used.add(hit)
        p, lv, info = want[hit]
        rest = g[-1][len(p[-1]):]
        if lv == 'memory_types':
            w = [info['used']] + ([info['used_diff']] if isdiff else [])
            if not ctx.fork(ctx.eq(info['size'], 0)):
                w += [info['size']] + ([info['size_diff']] if isdiff else [])
        else:
            w = [info['size']] + ([info['size_diff']] if isdiff else [])
        n = ctx.nums(rest)
        ctx.check(f'tree.{lv}', len(n) == len(w) and ctx.all_eq(zip(n, w)), g[-1])


def ctx_strip(s):
    """What is left of a tree label behind the name once figures are removed."""
    return ''.join(c for c in s if c not in '0123456789+-/ .')


CHECK = {'raw': check_raw, 'json2': check_json2, 'table': check_table, 'csv': check_csv, 'tree': check_tree}


def report(ctx, fmt, kind, cur, ref, opts, unify=False, noabbrev=False, show=(), archive='libx.a', syms=(), pad=False,
           regions=None, small=None, few=False):
    # with few only the first and the last size are symbolic
    fixed = [{i: 3 + 7 * i * (j + 1) for i in range(1 - j, sum(len(x) for _, x in o or ()) - 1 + j)} if few else None for j, o in enumerate((cur, ref))]
    fn = R.project(ctx, 'cur', cur, pad=pad, syms=syms, regions=small, memo=fixed[0])
    rf = R.project(ctx, 'ref', ref, regions=regions, memo=fixed[1]) if ref else None
    a = args(format=fmt, unify=unify, no_abbrev=noabbrev, abbrev=not noabbrev, diff=rf, archives=kind == 'archives',
             files=kind == 'files', archive_details=archive if kind == 'details' else None)
    for k in show:
        a[k] = True
    m = R.pipeline(ctx, fn, rf, a)
    r = ctx.cli(R.argv(fn, rf, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code != 0:
        return
    CHECK[fmt](ctx, r, m, a, kind)
    ctx.observe('out', [r.code])


DLIBS = ['/b/a/liba.a', '/b/[b]/lib[b].a', '/b/c/libc.a']


def dproject(libs):
    return ([('.dram0.data', [(f'.data.v{i}', f'{l}(o{i}.o)') for i, l in enumerate(libs)])],
            [('s0', [f'{l}(o{i}.o)' for i, l in enumerate(libs)]), ('s1', [f'{libs[0]}(o0.o)', f'{libs[1]}(q.o)']),
             ('s2', [f'{l}(o{i + 1}.o)' for i, l in enumerate(libs[1:])])])


DOSECS, DCRT = dproject(DLIBS)
SPLIT = ['/b/x/lib[b.a', '/b/y/lib]c.a', '/b/[z/lib].a']
ODDLIBS = ['esp-idf/q/lib"q".a', 'x[red]/lib[b]r.a', "e s/li'b \\s.a"]



# ten entries of each kind
TEN = {'archives': [('.dram0.data', [(f'.data.v{i}', f'/b/l{i}/lib{i}.a(m.o)') for i in range(10)])],
       'files': [('.dram0.data', [(f'.data.v{i}', f'/b/x/libx.a(m{i}.o)') for i in range(10)])],
       'details': [('.dram0.data', [(f'.data.v{i}', '/b/x/libx.a(m.o)') for i in range(10)])]}
TEN['summary'] = TEN['archives']
MANY = [f'/b/l{i}/lib{i}.a' for i in range(12)]


def deps(ctx, fmt, libs=DLIBS, filters=(None,)):
    """Dependency reports show the relation and the sizes."""
    osecs, crt = dproject(libs)
    fn = R.project(ctx, 'cur', osecs, syms=[('s0', '.data.v0'), ('s1', '.data.v0'), ('s2', '.data.v1')], crt=crt)
    full = ctx.flag('full')
    a = args(format=fmt, archive_dependencies=True, dep_reverse=ctx.flag('rev'), dep_symbols=ctx.flag('syms'), no_abbrev=full,
             abbrev=not full, filter=ctx.choice('filter', filters) if len(filters) > 1 else filters[0])
    mm, mf, dp = ctx.mod('memorymap'), ctx.mod('mapfile'), ctx.mod('deps')
    m = R.pipeline(ctx, fn, None, a)
    with ctx.quiet():
        exp = dp.get_archives_dependencies(mf.MapFile(fn), m, mm.get_elf(fn), a)
        exp = mm.get_summary_filtered(exp, a) if fmt in ('table', 'csv', 'dot') else exp
    r = ctx.cli(R.argv(fn, None, a))
    ctx.check('exit', r.code == 0 and r.exc is None, r)
    if r.code != 0:
        return
    rel = {}
    for n1, i1 in exp.items():
        for n2, i2 in i1['archives'].items():
            rel[label(n1, i1, a), label(n2, i2, a)] = (i1['size'], i2['size'], tuple(i2['symbols']) if a['dep_symbols'] else ())
    got = {}
    if fmt in ('raw', 'json2'):
        ctx.check('deps.json', ctx.deep_eq(ctx.loads(r.out), exp), r.out[:300])
        return
    if fmt in ('table', 'csv'):
        head, rows = (R.table_rows if fmt == 'table' else R.csv_rows)(r.out)
        k = 'Dependents' if a['dep_reverse'] else 'Dependencies'
        ctx.check('deps.header', head == ['Archive', 'Archive Size', k, k + ' Sizes'] + (['Symbols'] if a['dep_symbols'] else []), head)
        cur = cell = None
        for row in rows:
            if fmt == 'table' and not any(row[:4]):
                got[cell] = got[cell][:2] + (got[cell][2] + (row[4],),)
                continue
            if row[0]:
                cur = (row[0], ctx.num(row[1]))
            cell = (cur[0], row[2])
            ctx.check('deps.once', cell not in got, cell)
            got[cell] = (cur[1], ctx.num(row[3]), tuple(row[4].split()) if len(row) > 4 else ())
    elif fmt == 'tree':
        for p in R.tree_rows(r.out):
            w = [x.rsplit(' ', 1) for x in p[:2]]
            if len(p) == 2:
                got[w[0][0], w[1][0]] = (ctx.num(w[0][1]), ctx.num(w[1][1]), ())
            elif len(p) == 3:
                c = w[0][0], w[1][0]
                got[c] = got[c][:2] + (got[c][2] + (p[2],),)
    else:
        import re
        body = r.out.strip()
        ctx.check('deps.digraph', body.startswith('strict digraph {') and body.endswith('}'), body[:60])
        q = r'"((?:[^"\\]|\\.)*)"'
        un = lambda s: re.sub(r'\\(.)', r'\1', s)
        rest = body
        nodes = {}
        for mt in re.finditer(rf'^{q} \[[^"\n]*label={q}[^\n]*\]$', body, re.M):
            n, l = un(mt[1]), un(mt[2]).rsplit(' (', 1)
            nodes[n] = (l[0], ctx.num(l[1][:-1]))
            rest = rest.replace(mt[0], '', 1)
        edges = list(re.finditer(rf'^{q} -> {q}( \[label={q}\])?$', body, re.M))
        for mt in edges:
            rest = rest.replace(mt[0], '', 1)
        ctx.check('deps.well-formed', rest.split() == ['strict', 'digraph', '{', '}'], rest)
        for mt in edges:
            x, y, syms = un(mt[1]), un(mt[2]), un(mt[4] or '')
            if a['dep_reverse']:
                x, y = y, x
            ctx.check('deps.nodes', x in nodes and y in nodes, (x, y, nodes))
            if x in nodes and y in nodes:
                got[nodes[x][0], nodes[y][0]] = (nodes[x][1], nodes[y][1], tuple(syms.split()))
        ctx.check('deps.ids', set(nodes) == {n for n in exp} | {n for i in exp.values() for n in i['archives']}, nodes)
    ctx.check('deps.pairs', set(got) == set(rel), (got, rel))
    for c in rel:
        if c in got:
            ctx.check('deps.sizes', ctx.all_eq(zip(got[c][:2], rel[c][:2])), (c, got[c]))
            ctx.check('deps.symbols', got[c][2] == rel[c][2], (c, got[c]))


def scenarios(tier):
    out = []

    def add(name, bound, cost=1, **p):
        out.append(sc(name, report, bound, params=dict(opts=None, **p), cost=cost))
    for fmt in CHECK:
        kinds = ('summary',) if fmt == 'raw' else ('summary', 'archives', 'files', 'details')
        for kind in kinds:
            add(f'{fmt}-{kind}', f'{fmt} {kind} report of 4 output sections, 4 input sections, symbolic sizes', fmt=fmt, kind=kind,
                cur=PLAIN, ref=None, pad=True)
            add(f'{fmt}-{kind}-all', f'{fmt} {kind} report with unused entries, flash size and full names', fmt=fmt, kind=kind, cur=PLAIN,
                ref=None, show=('show_unused', 'use_flash_size'), noabbrev=True)
            add(f'{fmt}-{kind}-diff', f'{fmt} {kind} comparison of 2 projects with 2 output sections each', fmt=fmt, kind=kind, cur=ONE,
                ref=REF, show=('show_unchanged',), cost=4)
            add(f'{fmt}-{kind}-diff-flash', f'{fmt} {kind} comparison of 2 projects, totals of the regions differ', fmt=fmt, kind=kind,
                cur=ONE, ref=ONE, regions=[('dram0_0_seg', 0x3FC88000, 0x8000, 'rw'), ('drom0_0_seg', 0x3C000020, 0x80000, 'r')], cost=6)
            add(f'{fmt}-{kind}-full', f'{fmt} {kind} report, sections may exceed their memory regions', fmt=fmt, kind=kind, cur=ONE, ref=None,
                small=SMALL, cost=2, show=('use_flash_size',))
            add(f'{fmt}-{kind}-full-diff', f'{fmt} {kind} comparison, sections may exceed their memory regions', fmt=fmt, kind=kind, cur=ONE[:1], ref=REF2,
                small=SMALL[:1], regions=SMALL[:1], cost=4)
            add(f'{fmt}-{kind}-gone', f'{fmt} {kind} comparison, a section is gone', fmt=fmt, kind=kind, cur=REF2, ref=GONE, cost=4)
            add(f'{fmt}-{kind}-new', f'{fmt} {kind} comparison, a section is new', fmt=fmt, kind=kind, cur=GONE, ref=REF2, cost=4)
            add(f'{fmt}-{kind}-appear', f'{fmt} {kind} comparison, a memory type is new', fmt=fmt, kind=kind, cur=REF, ref=REF2, cost=4)
            add(f'{fmt}-{kind}-unify', f'{fmt} {kind} report, 2 sections of one short name, unified', fmt=fmt, kind=kind, cur=DUP,
                ref=None, unify=True)
            add(f'{fmt}-{kind}-unify-diff', f'{fmt} {kind} comparison, 2 sections of one short name, unified', fmt=fmt, kind=kind, cur=DUP,
                ref=REF2, unify=True, cost=2)
            add(f'{fmt}-{kind}-odd', f'{fmt} {kind} report, names with brackets', fmt=fmt, kind=kind, cur=ODD, ref=None, archive='lib[x].a')
            add(f'{fmt}-{kind}-odd-full', f'{fmt} {kind} report, full names with brackets', fmt=fmt, kind=kind, cur=ODD, ref=None,
                noabbrev=True, archive='lib[x].a')
            add(f'{fmt}-{kind}-quoted', f'{fmt} {kind} report, full names with quotes and blanks', fmt=fmt, kind=kind, cur=QUOTED, ref=None,
                noabbrev=True, archive='lib  q.a')
            for full in (False, True):
                add(f'{fmt}-{kind}-long{"-full" if full else ""}', f'{fmt} {kind} report, names of hundreds of characters', fmt=fmt, kind=kind, cur=LONG, ref=None,
                    noabbrev=full, archive='lib' + 'x' * 260 + '.a')
            add(f'{fmt}-{kind}-ten', f'{fmt} {kind} report of 10 entries', fmt=fmt, kind=kind, cur=TEN[kind], ref=None, few=True)
            add(f'{fmt}-{kind}-ten-diff', f'{fmt} {kind} comparison of 10 and 9 entries', fmt=fmt, kind=kind, cur=TEN[kind],
                ref=[(o, s[1:]) for o, s in TEN[kind]], few=True)
            for full in (False, True):
                add(f'{fmt}-{kind}-sections{"-full" if full else ""}', f'{fmt} {kind} report, sections with quotes and single brackets', fmt=fmt, kind=kind,
                    cur=SECTIONS, ref=None, noabbrev=full, archive='lib[x.a')
                add(f'{fmt}-{kind}-weird{"-full" if full else ""}', f'{fmt} {kind} report, names with backslashes, colons, braces, percent signs, figures', fmt=fmt, kind=kind,
                    cur=WEIRD, ref=None, noabbrev=full, archive='lib:bug:.a')
    add('json2-dup', 'json2 summary of 2 sections with one short name', fmt='json2', kind='summary', cur=DUP, ref=None)
    for fmt in ('json2', 'table', 'csv'):
        add(f'{fmt}-symbols', f'{fmt} report of ELF symbols', fmt=fmt, kind='details', cur=PLAIN, ref=None,
            syms=[('f', '.data.v'), ('g', '.bss.z')])
    for fmt in ('table', 'csv', 'tree', 'json2', 'raw', 'dot'):
        out.append(sc(f'deps-{fmt}', deps, f'{fmt} report of dependencies between 3 archives, all options, sizes symbolic', params=dict(fmt=fmt)))
        out.append(sc(f'deps-odd-{fmt}', deps, f'{fmt} report of dependencies between archives with quotes, brackets, blanks and backslashes',
                      params=dict(fmt=fmt, libs=ODDLIBS)))
        out.append(sc(f'deps-many-{fmt}', deps, f'{fmt} report of dependencies between 12 archives, all of them or those of a filter',
                      params=dict(fmt=fmt, libs=MANY, filters=(None, ['lib[0-4].a'], ['lib0.a', '11']))))
        out.append(sc(f'deps-split-{fmt}', deps, f'{fmt} report of dependencies between archives with single brackets', params=dict(fmt=fmt, libs=SPLIT)))
    return out
