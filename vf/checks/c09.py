"""C09: debug information attributes the code of merged objects without losing a byte."""
import json

from .common import (sc, map_text, isec_lines, fill_line, elf_bytes, nodes, SHT_PROGBITS, SHF_ALLOC, STT_FUNC, STT_OBJECT)
from .dwarfgen import *

ASSUMPTIONS = ['symbols with debug information do not overlap, unless there is only one',
               'component archives lie in the build directory; unit names are absolute paths without ".."']

BASE = 0x40080000
COMPONENTS = {'foo': ('/p/components/foo', '/b/esp-idf/foo_component/libfoo_component.a'),
              'inner': ('/p/components/foo/inner', '/b/esp-idf/i/libi.a'),
              'a_most': ('/p/components/foo/inner/most', '/b/esp-idf/a_most/liba_most.a'),
              'Mixed': ('/p/Components X/My_Comp-v2', '/b/esp-idf/Mixed/libMixed.a'),
              'config': ('/p/components/config', ''),
              'deep': ('/p/components/config/deep', '/b/x/y/libdeep.a')}
# unit name, archive it belongs to
UNITS = [('/p/components/foo/a.c', 'esp-idf/foo_component/libfoo_component.a'), ('/p/components/foo/inner/sub/c.cpp', 'esp-idf/i/libi.a'),
         ('/p/components/foobar/b.c', None), ('/p/components/config/k.c', None), ('/p/components/config/deep/d.S', 'x/y/libdeep.a'),
         ('/p/components/foo/inner/most/m.x.cc', 'esp-idf/a_most/liba_most.a'),
         ('/elsewhere/p/components/foo/x.c', None), ('/p/components/Foo/u.c', None), ('/p/components/foo/innerx.c', 'esp-idf/foo_component/libfoo_component.a'),
         ('/p/Components X/My_Comp-v2/Src/Main.CPP', 'esp-idf/Mixed/libMixed.a'), ('/p/components x/my_comp-v2/m.c', None)]

# the merged object
OBJ = {False: '/tmp/ccXYZ.ltrans0.ltrans.o', True: 'CMakeFiles/app.elf.dir/project_elf_src.c.obj'}


def debug(ctx, entries):
    """One unit per entry (unit name, address, is function)."""
    ab = abbrevs([(1, TAG_CU, True, [(AT_name, 'string')]), (2, TAG_SUB, False, [(AT_low_pc, 'addr')]),
                  (3, TAG_VAR, False, [(AT_location, 'exprloc')])])
    info = []
    for name, addr, func in entries:
        die = [2] + ctx.field(addr, 4) if func else [3, 5, 3] + ctx.field(addr, 4)
        info += cu(ctx, [1] + list(name.encode()) + [0] + die + [0])
    return [('.debug_abbrev', ab), ('.debug_info', info)]


def describe(ctx, d, app='app.elf', back=False, target='esp32'):
    comps = {k: {'dir': a, 'file': b, 'type': 'LIBRARY' if b else 'CONFIG_ONLY', 'sources': [], 'lib': f'__idf_{k}'} for k, (a, b) in (list(COMPONENTS.items())[::-1] if back else COMPONENTS.items())}
    ctx.write(d + 'project_description.json', json.dumps({'app_elf': app, 'target': target, 'build_dir': '/b', 'build_component_info': comps}))


def objects(m):
    """(section, archive, object file) -> entry"""
    return {p[1:4]: i for p, lv, i in nodes(m) if lv == 'object_files'}


def lowest(ctx, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = ctx.ite(x < r, x, r)
    return r


def expand(ctx, layout, nsym, units, load, gaps=(0,), zero=()):
    """layout: per input section (output section, file) where file None is the merged object."""
    cur, secs, bodies, first, ends = BASE, [], {}, {}, {}
    for i, (o, file) in enumerate(layout):
        s = 0 if i in zero else ctx.int(f's{i}', 1, 1 << 10)
        first.setdefault(o, cur)
        body = bodies.setdefault(o, [])
        body += isec_lines(ctx, f'.text.{i}', cur, s, file or OBJ[load])
        secs.append((o, file, cur, s))
        cur = cur + s
        if i in gaps:
            f = ctx.int(f'f{i}', 1, 64)
            body.append(fill_line(ctx, cur, f))
            cur = cur + f
        ends[o] = cur
    onames = ['.iram0.text', '.iram0.data']
    osecs = [(onames[o], first[o], ends[o] - first[o], bodies[o]) for o in bodies]
    syms, ents = [], []
    last = None
    for k in range(nsym):
        v, n = ctx.int(f'v{k}', BASE, BASE + (1 << 13)), ctx.int(f'n{k}', 1, 1 << 10)
        if last is not None:
            ctx.assume(v >= last)
        last = v + n
        unit, arch = UNITS[ctx.choice(f'unit{k}', units)]
        func = ctx.flag(f'func{k}')
        syms.append((f'f{k}', v, n, STT_FUNC if func else STT_OBJECT, 1))
        ents.append((unit, arch, v, n, func))
    order = list(range(nsym))
    if nsym > 1 and ctx.flag('swap'):
        order = order[::-1]
    inside = [ctx.And(s > 0, v >= a, v < a + s) if not isinstance(s, int) or s else False for _, _, v, _, _ in ents for _, _, a, s in secs]
    inside = [inside[k * len(secs):(k + 1) * len(secs)] for k in range(nsym)]
    fits = [ctx.And(c, ents[k][2] + ents[k][3] <= a + s) for k in range(nsym) for c, (_, _, a, s) in zip(inside[k], secs)]
    fits = [fits[k * len(secs):(k + 1) * len(secs)] for k in range(nsym)]
    if nsym > 1:
        for k in range(nsym):
            ctx.assume(ctx.Or(*fits[k]))
    text = map_text(ctx, [('seg', BASE, 0x20000, 'xrw')], osecs)
    fn = ctx.write('app.map', text)
    describe(ctx, '', back=nsym == 1 and ctx.flag('back'))
    hdrs = [(onames[o], SHT_PROGBITS, SHF_ALLOC, first[o], ends[o] - first[o]) for o in bodies]
    ctx.write_bytes('app.elf', elf_bytes(ctx, hdrs, [syms[k] for k in order], blobs=debug(ctx, [(ents[k][0], ents[k][2], ents[k][4]) for k in order])))
    mm = ctx.mod('memorymap')
    m, exc = ctx.call(mm.get, fn, load_symbols=load, use_dwarf=True)
    if load:
        # the first section that ends behind a symbol's address has to hold its end as well
        ok = True
        for _, _, v, n, _ in ents:
            good, prev = False, True
            for _, _, a, s in secs:
                if isinstance(s, int) and not s:
                    continue
                good = ctx.Or(good, ctx.And(prev, v < a + s, v + n <= a + s))
                prev = ctx.And(prev, v >= a + s)
            ok = ctx.And(ok, good)
        ctx.check('error', ctx.eq(ok, exc is None) if ctx.sym and not isinstance(ok, bool) else ok == (exc is None), repr(exc))
        ctx.check('error-kind', exc is None or isinstance(exc, mm.MemMapException), repr(exc))
    else:
        ctx.check('works', exc is None, repr(exc))
    if exc is not None:
        ctx.observe('err', type(exc).__name__)
        return
    sections = {}
    for t in m['memory_types'].values():
        for name, s in t['sections'].items():
            sections[name] = s
    used = ctx.sum(t['used'] for t in m['memory_types'].values())
    ctx.check('used', ctx.eq(used, ctx.sum(ends[o] - first[o] for o in bodies)), used)
    want, syms_want = {}, {}
    for i, (o, file, a, s) in enumerate(secs):
        if file is None:
            took, left = 0, False
            for k, (unit, arch, v, n, func) in enumerate(ents):
                if arch is None:
                    continue
                part = ctx.ite(inside[k][i], lowest(ctx, n, a + s - v), 0)
                key = (onames[o], arch, unit.rsplit('/', 1)[1])
                want[key] = want.get(key, 0) + part
                took = took + part
                if load:
                    q = key + (f'f{k}()' if func else f'f{k}',)
                    syms_want[q] = syms_want.get(q, 0) + ctx.ite(inside[k][i], n, 0)
            key = (onames[o], '(exe)', OBJ[load])
            want[key] = want.get(key, 0) + s - took
        else:
            ar, ob = file[:-1].split('(')
            key = (onames[o], ar, ob)
            want[key] = want.get(key, 0) + s
    got = objects(m)
    for key, size in want.items():
        ctx.check('object', ctx.eq(got[key]['size'] if key in got else 0, size), (key, got.get(key, {}).get('size'), size))
    ctx.check('only', all(k in want for k in got), list(got))
    for o in bodies:
        ctx.check('section', ctx.eq(sections[onames[o]]['size'], ends[o] - first[o]), onames[o])
    for key, size in syms_want.items():
        g = got.get(key[:3], {}).get('symbols', {}).get(key[3])
        ctx.check('symbol', ctx.eq(g['size'] if g else 0, size), (key, g, size))
    ctx.observe('sizes', sorted([list(k), v['size']] for k, v in got.items()))


def crowd(ctx, n):
    """Many symbols of a few units in one merged object."""
    s, at, big = ctx.int('s', n * 8, 1 << 14), ctx.int('at', 0, 64), ctx.int('big', 1, 1 << 12)
    which = ctx.choice('which', [0, n // 2, n - 1])
    ctx.assume(at + (n - 1) * 4 + big <= s)
    cur, syms, ents, want = BASE + at, [], [], {}
    for k in range(n):
        z = big if k == which else 4
        unit, arch = UNITS[(0, 1, 2, 9)[k % 4]]
        syms.append((f'f{k}', cur, z, STT_FUNC, 1))
        ents.append((unit, cur, True))
        if arch:
            want[arch] = want.get(arch, 0) + z
        cur = cur + z
    fn = ctx.write('app.map', map_text(ctx, [('seg', BASE, 0x20000, 'xrw')],
                                       [('.iram0.text', BASE, s, isec_lines(ctx, '.text', BASE, s, '/tmp/cc.ltrans0.o'))]))
    describe(ctx, '')
    ctx.write_bytes('app.elf', elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, BASE, s)], syms, blobs=debug(ctx, ents)))
    m, exc = ctx.call(ctx.mod('memorymap').get, fn, load_symbols=ctx.flag('load'), use_dwarf=True)
    ctx.check('works', exc is None, repr(exc))
    if exc is not None:
        return
    got = {}
    for (_, a, _), i in objects(m).items():
        got[a] = got.get(a, 0) + i['size']
    want['(exe)'] = s - ctx.sum(want.values())
    ctx.check('archives', all(a in want for a in got), list(got))
    for a, z in want.items():
        ctx.check('attributed', ctx.eq(got.get(a, 0), z), (a, got.get(a), z))
    ctx.observe('got', sorted([a, z] for a, z in got.items()))


def split(ctx, nsec, whole):
    """A merged object across the boundary of two memory types: every byte stays in its type."""
    start, bound, end = 0x40370000, 0x40378000, 0x403E0000
    cur = addr = ctx.int('addr', bound - 2048, bound + 16)
    body, parts, syms, ents = [], [], [], []
    for i in range(nsec):
        s, f, z = ctx.int(f's{i}', 1, 1 << 10), ctx.int(f'f{i}', 1, 64), ctx.int(f'z{i}', 1, 1 << 10)
        o = 0 if whole else ctx.int(f'o{i}', 0, 1 << 10)
        ctx.assume(ctx.eq(z, s) if whole else o + z <= s)
        body += isec_lines(ctx, f'.text.{i}', cur, s, '/tmp/cc.ltrans0.ltrans.o') + [fill_line(ctx, cur + s, f)]
        unit, arch = UNITS[(0, 1)[i]]
        syms.append((f'f{i}', cur + o, z, STT_FUNC, 1))
        ents.append((unit, cur + o, True))
        parts.append((arch, cur + o, z, cur, s))
        cur = cur + s + f
    osec = '.iram0.text'
    fn = ctx.write('app.map', map_text(ctx, [('iram0_0_seg', start, end - start, 'xrw')], [(osec, addr, cur - addr, body)], target='esp32s3'))
    describe(ctx, '', target='esp32s3')
    ctx.write_bytes('app.elf', elf_bytes(ctx, [(osec, SHT_PROGBITS, SHF_ALLOC, addr, cur - addr)], syms, blobs=debug(ctx, ents)))
    m, exc = ctx.call(ctx.mod('memorymap').get, fn, load_symbols=ctx.flag('load'), use_dwarf=True)
    ctx.check('works', exc is None, repr(exc))
    if exc is not None:
        return

    def within(a, n, lo, hi):
        x, y = ctx.ite(a > lo, a, lo), ctx.ite(a + n < hi, a + n, hi)
        return ctx.ite(y > x, y - x, 0)
    for alias, lo, hi in (('IRAM', start, bound), ('DIRAM', bound, end)):
        t = m['memory_types'][alias]
        s = t['sections'].get(osec)
        ctx.check('section', ctx.eq(s['size'] if s else 0, within(addr, cur - addr, lo, hi)), alias)
        ctx.check('used', ctx.eq(t['used'], within(addr, cur - addr, lo, hi)), alias)
        got = {k: v['size'] for k, v in s['archives'].items()} if s else {}
        rest = 0
        for arch, v, z, a, n in parts:
            ctx.check('archive', ctx.eq(got.get(arch, 0), within(v, z, lo, hi)), (alias, arch, got))
            rest = rest + within(a, n, lo, hi) - within(v, z, lo, hi)
        ctx.check('rest', ctx.eq(got.get('(exe)', 0), rest), (alias, got))
        ctx.observe(alias, sorted([k, v] for k, v in got.items()))


def project(ctx, d, s, n):
    fn = ctx.write(d + 'app.map', map_text(ctx, [('seg', BASE, 0x20000, 'xrw')],
                                           [('.iram0.text', BASE, s, isec_lines(ctx, '.text', BASE, s, '/tmp/cc.ltrans0.o'))]))
    ctx.write_bytes(d + 'app.elf', elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, BASE, s)], [('f', BASE, n, STT_FUNC, 1)],
                                             blobs=debug(ctx, [(UNITS[0][0], BASE, True)])))
    return fn


def config(ctx, d):
    """Build configuration beside the project; tells whether it turns link-time optimisation on."""
    c = ctx.choice('config' + d, ['none', 'on', 'off', 'silent', 'broken'])
    if c != 'none':
        ctx.write(d + 'config/sdkconfig.json', {'on': '{"COMPILER_LTO_LINKTIME": true, "A": 1}', 'off': '{"COMPILER_LTO_LINKTIME": false}',
                                                'silent': '{"LTO": true}', 'broken': '{'}[c])
    return c == 'on'


def api(ctx):
    s, n = ctx.int('s', 2, 1 << 10), ctx.int('n', 1, 1 << 10)
    ctx.assume(n < s)
    fn = project(ctx, '', s, n)
    desc = ctx.choice('desc', ['yes', 'no', 'other'])
    if desc != 'no':
        describe(ctx, '', 'app.elf' if desc == 'yes' else 'boot.elf')
    on = config(ctx, '')
    use = ctx.choice('use', [None, True, False])
    m, exc = ctx.call(ctx.mod('memorymap').get, fn, load_symbols=False, use_dwarf=use)
    ctx.check('works', exc is None, repr(exc))
    if exc is not None:
        return
    judge(ctx, 'api', m, s, n, desc == 'yes' and (on if use is None else use), UNITS[0][1])


def judge(ctx, tag, m, s, n, on, arch):
    got = {a: i['size'] for (_, a, _), i in objects(m).items()}
    ctx.check(f'{tag}.attributed', ctx.eq(got.get(arch, 0), n if on else 0), got)
    ctx.check(f'{tag}.rest', ctx.eq(got.get('(exe)', 0), s - n if on else s), got)
    ctx.check(f'{tag}.used', ctx.eq(ctx.sum(t['used'] for t in m['memory_types'].values()), s))


def cli(ctx, fmt, opts):
    s, n = ctx.int('s', 2, 1 << 10), ctx.int('n', 1, 1 << 10)
    ctx.assume(n < s)
    fn = project(ctx, '', s, n)
    describe(ctx, '')
    on = config(ctx, '')
    lto = ctx.choice('lto', [None, '--lto', '--no-lto'])
    r = ctx.cli([fn, '--format', fmt, *opts] + ([lto] if lto else []))
    ctx.check('exit', r.code == 0, r)
    if r.code:
        return
    on = on if lto is None else lto == '--lto'
    if fmt == 'raw':
        judge(ctx, 'cli', ctx.loads(r.out), s, n, on, UNITS[0][1])
        return
    if fmt == 'json2':
        e = ctx.loads(r.out).get(UNITS[0][1])
        ctx.check('shown', (e is not None) == on, r.out[:300])
        if e:
            ctx.check('figure', ctx.eq(e['size'], n), e)
        return
    rows = [ln for ln in r.out.splitlines() if ('a.c' if '--files' in opts else 'libfoo_component.a') in ln]
    ctx.check('shown', bool(rows) == on, (on, r.out[:300]))
    for ln in rows:
        ctx.check('figure', ctx.Or(*[ctx.eq(x, n) for x in ctx.nums(ln)]), ln)


def compare(ctx):
    """Each project of a comparison follows its own configuration."""
    s, n, s2, n2 = (ctx.int(x, 2, 1 << 10) for x in ('s', 'n', 's2', 'n2'))
    ctx.assume(ctx.And(n < s, n2 < s2))
    fns, ons = [], []
    for d, a, b in (('one/', s, n), ('two/', s2, n2)):
        fns.append(project(ctx, d, a, b))
        describe(ctx, d)
        c = ctx.flag('on' + d)
        ctx.write(d + 'config/sdkconfig.json', json.dumps({'COMPILER_LTO_LINKTIME': c}))
        ons.append(c)
    lto = ctx.choice('lto', [None, '--lto', '--no-lto'])
    r = ctx.cli([fns[0], '--diff', fns[1], '--format', 'raw'] + ([lto] if lto else []))
    ctx.check('exit', r.code == 0, r)
    if r.code:
        return
    m = ctx.loads(r.out)
    if lto:
        ons = [lto == '--lto'] * 2
    got = {a: (i['size'], i['size_diff']) for (_, a, _), i in objects(m).items()}
    cur, ref = n if ons[0] else 0, n2 if ons[1] else 0
    g = got.get(UNITS[0][1], (0, 0))
    ctx.check('attributed', ctx.And(ctx.eq(g[0], cur), ctx.eq(g[1], cur - ref)), got)
    g = got.get('(exe)', (0, 0))
    ctx.check('rest', ctx.And(ctx.eq(g[0], s - cur), ctx.eq(g[1], (s - cur) - (s2 - ref))), got)


def scenarios(tier):
    big = tier == 'thorough'
    L, L2 = '/b/libz.a(z.o)', '/b/liby.a(y.o)'
    shapes = {'exe': [(0, None)], 'exe-exe': [(0, None), (0, None)], 'exe-lib': [(0, None), (0, L)], 'lib-exe': [(0, L), (0, None)],
              'exe-lib-exe': [(0, None), (0, L), (0, None)], 'two': [(0, None), (1, L), (1, None)]}
    allu = list(range(len(UNITS)))
    out = []
    for load in (False, True):
        t = 'sym' if load else 'nosym'
        for name, lay in shapes.items():
            out.append(sc(f'{name}-1-{t}', expand, f'{len(lay)} input sections with padding, 1 symbol anywhere, function or variable, '
                          f'{len(allu)} unit names', params=dict(layout=lay, nsym=1, units=allu, load=load)))
            out.append(sc(f'{name}-2-{t}', expand, f'{len(lay)} input sections with padding, 2 symbols in either order', cost=3,
                          params=dict(layout=lay, nsym=2, units=[0, 2] if not big else [0, 1, 2], load=load)))
            if big:
                out.append(sc(f'{name}-3-{t}', expand, f'{len(lay)} input sections with padding, 3 symbols', cost=9,
                              params=dict(layout=lay, nsym=3, units=[0, 2], load=load)))
        out.append(sc(f'empty-{t}', expand, '4 input sections, 2 of them empty, padding behind 3 of them, 1 symbol', cost=2,
                      params=dict(layout=[(0, None), (0, None), (0, L), (0, None)], nsym=1, units=[0, 2], load=load, gaps=(0, 2, 3), zero=(1, 3))))
        out.append(sc(f'none-{t}', expand, 'no symbols', params=dict(layout=shapes['exe-lib-exe'], nsym=0, units=[], load=load)))
    out.append(sc('config', api, '5 build configurations, asked for, refused or automatic, description present, foreign or absent'))
    for fmt, opts in (('raw', []), ('table', ['--archives']), ('csv', ['--archives']), ('json2', ['--archives']), ('table', ['--files']),
                      ('tree', []), ('tree', ['--archives'])):
        out.append(sc('cli-' + '-'.join([fmt] + [o.strip('-') for o in opts]), cli, '5 build configurations, --lto, --no-lto or neither',
                      params=dict(fmt=fmt, opts=opts)))
    for n in (1, 2):
        for whole in (False, True):
            out.append(sc(f'split-{n}-{"whole" if whole else "part"}', split, f'{n} merged input sections with padding around a memory type boundary, '
                          '1 symbol each', params=dict(nsec=n, whole=whole)))
    out.append(sc('crowd', crowd, '120 symbols of 4 units in 1 merged input section, 1 of symbolic size, all at a symbolic distance', params=dict(n=120), cost=3, tick_limit=90000))
    out.append(sc('compare', compare, '2 projects, each with or without link-time optimisation, --lto, --no-lto or neither'))
    return out
