"""C21: a report is a function of its input files."""
import copy
import os
import subprocess
import sys

from ..chips import CHIPS
from .common import sc, args, memmap_get, map_text, isec_lines, elf_bytes, SHT_PROGBITS, STT_FUNC
from . import dwarfgen as D
from . import reports as R
from .c06 import project as split_project

ASSUMPTIONS = ['every iteration over a set may come in any order (it depends on the hash seed of the interpreter)',
               'concrete replay: the command line in fresh interpreters with 12 hash seeds']

LIBS = ['/b/a/liba.a', '/b/b/libb.a', '/b/c/libc.a', '/b/d/libd.a']
OSECS = [('.dram0.data', [(f'.data.v{i}', f'{l}(o{i}.o)') for i, l in enumerate(LIBS)])]
CRT = [('s0', [f'{LIBS[0]}(o0.o)', f'{LIBS[1]}(o1.o)', f'{LIBS[2]}(o2.o)', f'{LIBS[3]}(o3.o)']),
       ('s1', [f'{LIBS[1]}(o1.o)', f'{LIBS[3]}(o3.o)', f'{LIBS[2]}(o2.o)'])]
SYMS = [('s0', '.data.v0'), ('s1', '.data.v1')]


def fresh(argv, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    root = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules['esp_idf_size'].__file__)))
    env['PYTHONPATH'] = root
    p = subprocess.run([sys.executable, '-m', 'esp_idf_size', *map(str, argv)], capture_output=True, text=True, env=env, timeout=120)
    return p.returncode, p.stdout


def seeds(ctx, argv_of, setup):
    """Same output whatever order sets are iterated in."""
    fn, ref = setup(ctx)
    argv = argv_of(fn, ref)
    first = ctx.cli(argv)
    ctx.check('works', first.code == 0 and first.exc is None, first)
    if ctx.sym:
        ctx.nondet_sets(True)
        second = ctx.cli(argv)
        ctx.nondet_sets(False)
        ctx.check('same', (second.code, second.out) == (first.code, first.out), (first.out[:400], second.out[:400]))
    else:
        ctx.mod('')
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            outs = set(ex.map(lambda s: fresh(argv, s), range(12)))
        ctx.check('same', len(outs) == 1, sorted(outs)[:2])


def with_crt(ctx):
    return R.project(ctx, 'cur', OSECS, syms=SYMS, crt=CRT), None


def two(ctx):
    return R.project(ctx, 'cur', OSECS), R.project(ctx, 'ref', [('.dram0.data', [('.data.v1', f'{LIBS[1]}(o1.o)')]),
                                                                ('.dram0.bss', [('.bss.x', f'{LIBS[2]}(o2.o)')])])


def build(a):
    return lambda fn, ref: R.argv(fn, ref, a)


def run(ctx, opts, diff=False):
    a = args(**opts)
    seeds(ctx, build(a), two if diff else with_crt)


def again(ctx, load, elf):
    """The same objects used twice give the same answer, and the maps given to an operation are not changed by later ones."""
    mm, mf = ctx.mod('memorymap'), ctx.mod('mapfile')
    fn, _ = split_project(ctx, 'cur', [('.dram0.data', 2)], ['/b/x/libx.a(m.o)', '/b/x/libx.a(n.o)'], ['.text.f'], 4096, 1 if elf else 0)
    with ctx.quiet():
        f = mf.MapFile(fn)
        e = mm.get_elf(fn) if elf else None
        one = mm.get(fn, load, None, f, e)
        keep = copy.deepcopy(one)
        two_ = mm.get(fn, load, None, f, e)
        ctx.check('twice', ctx.deep_eq(one, two_))
        mm.unify(two_)
        mm.remove_unused(two_)
        ctx.check('independent', ctx.deep_eq(one, keep))
        three = mm.get(fn, load)
    ctx.check('thrice', ctx.deep_eq(one, three))


def chips(ctx, second):
    """What was analysed before does not matter: another chip first, then this one."""
    first = ctx.choice('first', [c for c in CHIPS if c != second])
    got = []
    for who, chip in (('a', first), ('b', second), ('c', first)):
        key, alias, p, s, n = CHIPS[chip][0]
        l = ctx.int(f'{who}l', 64, 4096)
        z = ctx.int(f'{who}z', 1, 64)
        text = map_text(ctx, [('seg', p, l, 'xrw')], [('.iram0.text', p, z, isec_lines(ctx, '.text.f', p, z, '/b/liba.a(f.o)'))], target=chip)
        m = memmap_get(ctx, ctx.write(f'{who}.map', text))
        want = list(dict.fromkeys(a for _, a, _, _, _ in CHIPS[chip]))
        ctx.check('types', sorted(m['memory_types']) == sorted(want), (chip, list(m['memory_types'])))
        ctx.check('target', m['target'] == chip)
        for a, t in m['memory_types'].items():
            ctx.check('sizes', ctx.And(ctx.eq(t['size'], l if a == alias else 0), ctx.eq(t['used'], z if a == alias else 0)), (chip, a))
        got.append((m, copy.deepcopy(m)))
    for m, keep in got:
        ctx.check('untouched', ctx.deep_eq(m, keep))


SUMMARY = ['get_archives_summary', 'get_object_files_summary', 'get_symbols_summary']


def reading(ctx, diff):
    """Making summaries or dependencies of a memory map leaves it alone and shares nothing with it."""
    mm = ctx.mod('memorymap')
    fn, ref = with_crt(ctx)
    a = args(archive_details='libb.a', diff=fn if diff else None, show_unchanged=ctx.flag('unchanged'), unify=ctx.flag('unify'), archive_dependencies=True)
    with ctx.quiet():
        f, e = ctx.mod('mapfile').MapFile(fn), mm.get_elf(fn)
        m = mm.get(fn, True, None, f, e)
        if diff:
            m = mm.diff(m, mm.get(R.project(ctx, 'ref', [('.dram0.data', [('.data.v1', f'{LIBS[1]}(o1.o)')])])))
        if a['unify']:
            mm.unify(m)
        keep = copy.deepcopy(m)
        opts = dict(a)
        for name in SUMMARY:
            s = getattr(mm, name)(m, a)
            first = copy.deepcopy(s)
            ctx.check('unchanged', ctx.deep_eq(m, keep), name)
            again = getattr(mm, name)(m, a)
            ctx.check('repeated', ctx.deep_eq(again, first), name)
            again = mm.get_summary_sorted(again, a)
            mm.get_summary_filtered(again, args(filter=['l']))
            wreck(again)
            ctx.check('own', ctx.And(ctx.deep_eq(m, keep), ctx.deep_eq(s, first)), name)
        d = ctx.mod('deps').get_archives_dependencies(f, m, e, a)
        first = copy.deepcopy(d)
        wreck(d)
        d = ctx.mod('deps').get_archives_dependencies(f, m, e, a)
        ctx.check('dependencies', ctx.And(ctx.deep_eq(d, first), ctx.deep_eq(m, keep)))
        ctx.check('options', all(a[k] == v for k, v in opts.items()))


def comparing(ctx, unused):
    """Comparing two memory maps leaves both alone and shares nothing with them."""
    mm = ctx.mod('memorymap')
    fn = R.project(ctx, 'cur', [('.dram0.data', OSECS[0][1][:2])])
    ref = R.project(ctx, 'ref', [('.dram0.data', OSECS[0][1][:1]), ('.iram0.text', [('.text.x', f'{LIBS[2]}(o2.o)')])])
    with ctx.quiet():
        cur, old = mm.get(fn), mm.get(ref)
        if not unused:
            mm.remove_unused(cur)
            mm.remove_unused(old)
        keep = copy.deepcopy(cur), copy.deepcopy(old)
        pair = (cur, old) if not ctx.flag('swap') else (old, cur)
        one = mm.diff(*pair)
        first = copy.deepcopy(one)
        ctx.check('inputs', ctx.And(ctx.deep_eq(cur, keep[0]), ctx.deep_eq(old, keep[1])))
        again = mm.diff(*pair)
        ctx.check('repeated', ctx.deep_eq(again, first))
        a = args(diff=ref, show_unchanged=ctx.flag('unchanged'))
        if not a['show_unchanged']:
            mm.unify(again)
            mm.trim(again, a)
            mm.sort(again, a)
        wreck(again)
        ctx.check('own', ctx.And(ctx.deep_eq(cur, keep[0]), ctx.deep_eq(old, keep[1]), ctx.deep_eq(one, first)))


def wreck(d):
    """Change everything in a result."""
    for k in list(d):
        v = d[k]
        if isinstance(v, dict):
            wreck(v)
        elif isinstance(v, list):
            v.append('x')
        elif not isinstance(v, str):
            d[k] = v + 1
    d['added'] = 1


FIRST = [[], ['--quiet'], ['--format', 'raw', '--debug'], ['--no-color', '--force-terminal'], ['--archives', '--sort', 'DIRAM', '--sort-reverse'],
         ['--archives', '--sort', 'no such'], ['--files', '--no-abbrev', '-F', 'x'], ['--archive-details', 'liba.a', '--unify'],
         ['--archive-dependencies', '--dep-reverse', '--dep-symbols'], ['--format', 'dot', '--archive-deps'], ['--show-unused', '--use-flash-size'],
         ['-o', 'OUT'], ['--lto'], ['absent.map']]


def after(ctx, opts, kind):
    """A report is the same after any other one in the same process."""
    fn = R.project(ctx, 'cur', [('.dram0.data', OSECS[0][1][:2])], syms=SYMS, crt=[('s0', CRT[0][1][:2])])
    other = R.project(ctx, 'ref', [('.iram0.text', [('.text.f', f'{LIBS[0]}(o1.o)')]), ('.dram0.bss', [('.bss.x', f'{LIBS[2]}(o2.o)')])])
    argv = [fn] + opts + (['--diff', other] if kind == 'diff' else [])
    one = ctx.cli(argv)
    ctx.check('works', one.code == 0 and one.exc is None, one)
    before = ctx.choice('before', FIRST)
    which = ctx.choice('project', [other, fn])
    pre = ['x'] if before == ['absent.map'] else []
    ctx.cli([which + ''.join(pre)] + [ctx.path('o.txt') if x == 'OUT' else x for x in before if not pre])
    two = ctx.cli(argv)
    ctx.check('same', (two.code, two.out, two.err) == (one.code, one.out, one.err), (one, two))


def rewritten(ctx, opts):
    """What counts is what the files contain now, not what they contained in an earlier run."""
    files = [('o0.o', '.data.v0'), ('o1.o', '.data.v1')]

    def version(which, stem):
        libs = LIBS[:2] if which == 'b' else LIBS[1:3]
        secs = [(s, f'{l}({o})') for l, (o, s) in zip(libs, files)]
        crt = [('s0', [f'{libs[0]}(o0.o)', f'{libs[1]}(o1.o)'])] if which == 'b' else [('s1', [f'{libs[1]}(o1.o)', f'{libs[0]}(o0.o)'])]
        ctx.write(os.path.join(os.path.dirname(stem), 'config/sdkconfig.json'), '{"COMPILER_LTO_LINKTIME": %s}' % ('false' if which == 'b' else lto))
        return R.project(ctx, which, [('.dram0.data', secs)], syms=SYMS, crt=crt, stem=stem, memo=memo[which],
                         proj={'target': 'esp32s3', 'build_dir': '/b' if which == 'b' else '/c', 'app_elf': 'app.elf' if which == 'b' else elf})

    memo = {'a': {}, 'b': {}}
    elf = ctx.choice('elf', ['app.elf', 'other.elf'])
    lto = 'true' if ctx.flag('lto') else 'false'
    runs = []
    for which, stem in (('b', 'p/app'), ('a', 'p/app'), ('b', 'p/app'), ('a', 'q/app'), ('b', 'r/app')):
        r = ctx.cli([version(which, stem)] + opts)
        ctx.check('works', r.exc is None, r)
        runs.append((r.code, r.out))
    ctx.check('back', runs[2] == runs[0], (runs[0], runs[2]))
    ctx.check('elsewhere', runs[3] == runs[1], (runs[1], runs[3]))
    ctx.check('elsewhere', runs[4] == runs[0], (runs[0], runs[4]))


def elves(ctx, kinds):
    """ELF files open at the same time do not mix, whatever the order they are looked at in."""
    files = []
    for w, (bits, big) in zip('pqr', kinds):
        a = ctx.int(f'{w}a', 1, 1 << 31)
        z = ctx.int(f'{w}z', 1, 1 << 20)
        asize = bits // 8
        unit = f'/{w}/x.c'
        ab = D.abbrevs([(1, D.TAG_CU, True, [(D.AT_name, 'string')]), (2, D.TAG_SUB, False, [(D.AT_name, 'string'), (D.AT_low_pc, 'addr')])])
        if w == 'q':
            ab = D.abbrevs([(2, D.TAG_CU, True, [(D.AT_name, 'string')]), (1, D.TAG_SUB, False, [(D.AT_low_pc, 'addr'), (D.AT_name, 'string')])])
            dies = [2] + list(unit.encode()) + [0, 1] + ctx.field(a, asize, big) + list(b'f\0') + [0]
        else:
            dies = [1] + list(unit.encode()) + [0, 2] + list(b'f\0') + ctx.field(a, asize, big) + [0]
        info = D.cu(ctx, dies, 4, asize, 0, big)
        fn = ctx.write_bytes(f'{w}.elf', elf_bytes(ctx, [(f'.text.{w}', SHT_PROGBITS, 6, a, z)], [(f'f{w}', a, z, STT_FUNC, 1)], bits=bits, big=big,
                                                    blobs=[('.debug_abbrev', ab), ('.debug_info', info)]))
        files.append((fn, w, a, z, unit))
    order = ctx.choice('order', [(0, 1), (1, 0)] if len(files) == 2 else [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    with ctx.quiet():
        E = ctx.mod('elf')
        es = [E.Elf(f[0]) for f in files]
        for i in order:
            len(es[i].symbols)
        for i in reversed(order):
            len(es[i].CUs)
        for i in order:
            es[i].add_cus_to_symbols()
    for e, (fn, w, a, z, unit) in zip(es, files):
        h = e.lookup_shdr(f'.text.{w}')
        ctx.check('section', h is not None and ctx.And(ctx.eq(h.sh_addr, a), ctx.eq(h.sh_size, z)), (w, h))
        ctx.check('others', all(e.lookup_shdr(f'.text.{o[1]}') is None for o in files if o[1] != w), w)
        got = e.symbols
        ctx.check('symbols', len(got) == 2 and got[1].name == f'f{w}' and ctx.And(ctx.eq(got[1].st_value, a), ctx.eq(got[1].st_size, z)), (w, got))
        ctx.check('unit', [str(s.cu_name) for s in e.add_cus_to_symbols().values()] == [unit], w)


def scenarios(tier):
    out = []
    for name, kinds in (('same', [(32, False)] * 2), ('class', [(32, False), (64, False)]), ('order', [(32, False), (32, True)]),
                        ('three', [(32, False), (64, True), (32, False)])):
        out.append(sc(f'elves-{name}', elves, f'{len(kinds)} ELF files with debug information open together, addresses and sizes symbolic',
                      params=dict(kinds=kinds)))
    for c in CHIPS:
        out.append(sc(f'chips-{c}', chips, f'a map for {c} after one for any other chip, region and section sizes symbolic',
                      samples=1, params=dict(second=c)))
    for diff in (False, True):
        out.append(sc(f'reading-{"diff" if diff else "one"}', reading, '4 archives, summaries and dependencies read twice, sizes symbolic',
                      samples=2, params=dict(diff=diff)))
    for unused in (False, True):
        out.append(sc(f'comparing-{"all" if unused else "used"}', comparing, 'comparison of 2 projects made twice, sizes symbolic', samples=2, params=dict(unused=unused)))
    for kind in ('one', 'diff'):
        for name, opts in (('table', []), ('csv', ['--format', 'csv', '--archives']), ('json2', ['--format', 'json2', '--files']),
                           ('tree', ['--format', 'tree']), ('raw', ['--format', 'raw'])) + \
                ((('dot', ['--format', 'dot', '--archive-deps']),) if kind == 'one' else ()):
            out.append(sc(f'after-{name}-{kind}', after, f'{name} report before and after any of {len(FIRST)} other runs, sizes symbolic',
                          samples=2, cost=9 if kind == 'diff' else 1, params=dict(opts=opts, kind=kind)))
    for name, opts in (('summary', []), ('archives', ['--archives']), ('files', ['--files']), ('details', ['--archive-details', 'libb.a']),
                       ('deps', ['--archive-deps', '--dep-symbols'])):
        out.append(sc(f'rewritten-{name}', rewritten, 'the files of a project replaced by those of another build and back, sizes symbolic',
                      samples=2, params=dict(opts=['--format', 'csv'] + opts)))
    for fmt in ('table', 'csv', 'json2', 'tree', 'dot', 'raw'):
        for rev in (False, True):
            out.append(sc(f'deps-{fmt}{"-rev" if rev else ""}', run, f'{fmt} report of dependencies between 4 archives, every set order',
                          samples=1, params=dict(opts=dict(format=fmt, archive_dependencies=True, dep_reverse=rev, dep_symbols=True))))
    for fmt in ('table', 'csv', 'json2', 'tree', 'raw'):
        for kind in ({}, dict(archives=True), dict(files=True), dict(archive_details='libb.a')):
            k = next(iter(kind), 'summary')
            out.append(sc(f'{fmt}-{k}', run, f'{fmt} {k} comparison of 2 projects, every set order',
                          samples=1, params=dict(opts=dict(format=fmt, show_unchanged=True, **kind), diff=True)))
    for load in (False, True):
        for elf in (False, True):
            out.append(sc(f'again-{load}-{elf}', again, '1 output section around a memory type boundary, 2 input sections, operations '
                          'repeated on the same objects', params=dict(load=load, elf=elf)))
    return out
