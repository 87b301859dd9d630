"""C20: the ELF file, the target and the project description belong to the map file that is analysed."""
import json
import os

from .common import (sc, args, map_text, isec_lines, elf_bytes, memmap_get, nodes, SHT_PROGBITS, SHF_ALLOC, STT_FUNC)

ASSUMPTIONS = ['file names are those of the scenario; sizes symbolic; POSIX paths']

BASE = {'esp32': 0x40080000, 'esp32s3': 0x40374000, 'esp32c3': 0x40380000}
MAPS = ['app.map', 'app.bin.map', 'boot.map']
ELFS = ['app.elf', 'sub/app.elf', 'app.bin.elf', 'boot.elf', 'app', 'App.elf', '', 'xapp.elf', 'app.map.elf']
STEM = {'app.elf': 'app', 'sub/app.elf': 'app', 'app.bin.elf': 'app.bin', 'boot.elf': 'boot', 'app': 'app', 'App.elf': 'App', '': '',
        'xapp.elf': 'xapp', 'app.map.elf': 'app.map'}


def write_map(ctx, name, target, s, addr, obj='/b/libx.a(m.o)', isec='.text.fallback'):
    """target None: the map file does not tell the chip."""
    text = map_text(ctx, [('seg', addr & ~0xffff, 0x20000, 'xrw')],
                    [('.iram0.text', addr, s, isec_lines(ctx, isec, addr, s, obj))], target=target or 'x')
    return ctx.write(name, text if target else text.replace('IDF_TARGET_X', 'SOMETHING'))


def write_elf(ctx, name, sym, s, addr):
    return ctx.write_bytes(name, elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, addr, s)], [(sym, addr, s, STT_FUNC, 1)]))


def symbols(m):
    return sorted(p[-1] for p, lv, _ in nodes(m) if lv == 'symbols')


def association(ctx, cli):
    s = ctx.int('s', 1, 1 << 12)
    mapn = ctx.choice('map', MAPS)
    app = ctx.choice('app_elf', [None] + ELFS)
    mt = ctx.choice('map_target', ['esp32', None])
    exists = ctx.choice('exists', [True, False]) if app else False
    addr = 0x40380000 + 0x400  # internal RAM on both chips of the scenario
    fn = write_map(ctx, mapn, mt, s, addr)
    if app is not None:
        ctx.write('project_description.json', json.dumps({'app_elf': app, 'target': 'esp32s3', 'build_dir': '/elsewhere'}))
        if exists:
            write_elf(ctx, app, 'from_elf', s, addr)
    match = app is not None and STEM[app] == mapn[:-4]
    target = 'esp32s3' if match else mt
    mm = ctx.mod('memorymap')
    if cli:
        r = ctx.cli([fn, '--format', 'raw', '--show-unused'])
        if target is None:
            ctx.check('no-target', r.code not in (0, None) and (r.exc is None or isinstance(r.exc, SystemExit)), r)
            return
        ctx.check('works', r.code == 0, r)
        if r.code:
            return
        m = ctx.loads(r.out)
    else:
        m, exc = ctx.call(mm.get, fn)
        if target is None:
            ctx.check('no-target', isinstance(exc, mm.MemMapException), exc)
            return
        ctx.check('works', exc is None, repr(exc))
        if exc is not None:
            return
        e, exc = ctx.call(mm.get_elf, fn)
        ctx.check('elf', exc is None and (e is not None) == bool(match and exists), (mapn, app, e))
    ctx.check('target', m['target'] == target, (m['target'], target))
    ctx.check('symbols', symbols(m) == ['from_elf()' if match and exists else '.text.fallback'], (mapn, app, symbols(m)))
    ctx.check('path', m['project_path'] == fn, m['project_path'])


def supplied(ctx):
    """Objects given by the caller are used."""
    s = ctx.int('s', 1, 1 << 12)
    addr = 0x40380400
    mm, mf, el = ctx.mod('memorymap'), ctx.mod('mapfile'), ctx.mod('elf')
    own = ctx.flag('own')
    fn = write_map(ctx, 'app.map', 'esp32s3', s, addr)
    if own:
        ctx.write('project_description.json', json.dumps({'app_elf': 'app.elf', 'target': 'esp32s3'}))
        write_elf(ctx, 'app.elf', 'from_project', s, addr)
    other = write_map(ctx, 'o/other.map', 'esp32s3', s, addr, '/b/liby.a(m.o)', '.text.other')
    oelf = write_elf(ctx, 'o/other.elf', 'from_caller', s, addr)
    give_map, give_elf = ctx.flag('give_map'), ctx.flag('give_elf')
    with ctx.quiet():
        m = mm.get(fn, map_file=mf.MapFile(other) if give_map else None, elf=el.Elf(oelf) if give_elf else None)
    used = ctx.sum(t['used'] for t in m['memory_types'].values())
    ctx.check('used', ctx.eq(used, s))
    archives = [p[-1] for p, lv, _ in nodes(m) if lv == 'archives']
    ctx.check('map', archives == ['/b/liby.a' if give_map else '/b/libx.a'], archives)
    name = 'from_caller()' if give_elf else 'from_project()' if own else '.text.other' if give_map else '.text.fallback'
    ctx.check('elf', symbols(m) == [name], (give_map, give_elf, symbols(m)))


def broken(ctx, sizes):
    """An ELF file that cannot be used does not prevent the report."""
    s = ctx.int('s', 1, 1 << 12)
    addr = 0x40380400
    fn = write_map(ctx, 'app.map', 'esp32s3', s, addr)
    ctx.write('project_description.json', json.dumps({'app_elf': 'app.elf', 'target': 'esp32s3'}))
    good = elf_bytes(ctx, [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, addr, s)], [('f', addr, s, STT_FUNC, 1)])
    n = ctx.choice('length', [n for n in sizes if n < len(good)])
    ctx.write_bytes('app.elf', good[:n] if n >= 0 else [0x41] * -n)
    m, exc = ctx.call(ctx.mod('memorymap').get, fn)
    ctx.check('works', exc is None, repr(exc))
    if exc is None:
        ctx.check('used', ctx.eq(ctx.sum(t['used'] for t in m['memory_types'].values()), s))
        ctx.check('symbols', symbols(m) == ['.text.fallback'], symbols(m))


def relocated(ctx):
    """A project moved or copied elsewhere is analysed from where its map file lies."""
    s, s2 = ctx.int('s', 1, 1 << 12), ctx.int('s2', 1, 1 << 12)
    addr = 0x40380400
    for d, size, sym in (('one', s, 'f_one'), ('two', s2, 'f_two')):
        write_map(ctx, f'{d}/app.map', 'esp32s3', size, addr)
        write_elf(ctx, f'{d}/app.elf', sym, size, addr)
        ctx.write(f'{d}/project_description.json',
                  json.dumps({'app_elf': 'app.elf', 'target': 'esp32s3', 'build_dir': os.path.join(ctx.tmp(), 'one'),
                              'project_path': os.path.join(ctx.tmp(), 'one')}))
    # times of the files tell nothing
    old = ctx.choice('old', ['app.map', 'app.elf', 'project_description.json'])
    os.utime(os.path.join(ctx.tmp(), 'two', old), (1, 1))
    cwd = os.getcwd()
    os.chdir(os.path.join(ctx.tmp(), 'two'))
    try:
        how = ctx.choice('how', ['abs', 'rel', 'dot', 'up'])
        fn = {'abs': os.path.join(ctx.tmp(), 'two', 'app.map'), 'rel': 'app.map', 'dot': './app.map', 'up': '../two/app.map'}[how]
        mm = ctx.mod('memorymap')
        m, exc = ctx.call(mm.get, fn)
        ctx.check('works', exc is None, repr(exc))
        if exc is None:
            ctx.check('symbols', symbols(m) == ['f_two()'], symbols(m))
            ctx.check('used', ctx.eq(ctx.sum(t['used'] for t in m['memory_types'].values()), s2))
            ctx.check('path', m['project_path'] == os.path.join(ctx.tmp(), 'two', 'app.map'), m['project_path'])
        r = ctx.cli([fn, '--format', 'raw'])
        ctx.check('cli', r.code == 0 and symbols(ctx.loads(r.out)) == ['f_two()'], r)
    finally:
        os.chdir(cwd)


def linked(ctx):
    """A map file that is a link: its name and place are those of the link."""
    s, s2 = ctx.int('s', 1, 1 << 12), ctx.int('s2', 1, 1 << 12)
    addr = 0x40380400
    real = write_map(ctx, 'real/app.map', 'esp32s3', s, addr)
    write_elf(ctx, 'real/app.elf', 'f_real', s, addr)
    ctx.write('real/project_description.json', json.dumps({'app_elf': 'app.elf', 'target': 'esp32s3'}))
    name = ctx.choice('name', ['app', 'alias'])
    desc = ctx.choice('desc', ['app', 'alias', None])
    fn = ctx.path(f'link/{name}.map')
    os.symlink(real, fn)
    if desc:
        write_elf(ctx, f'link/{desc}.elf', 'f_link', s, addr)
        ctx.write('link/project_description.json', json.dumps({'app_elf': f'{desc}.elf', 'target': 'esp32s3'}))
    want = ['f_link()' if desc == name else '.text.fallback']
    m, exc = ctx.call(ctx.mod('memorymap').get, fn)
    ctx.check('works', exc is None and symbols(m) == want, (repr(exc), m and symbols(m), want))
    r = ctx.cli([fn, '--format', 'raw'])
    ctx.check('cli', r.code == 0 and symbols(ctx.loads(r.out)) == want, r)


def unnamed(ctx):
    """A description that names no executable is not used, whatever else it holds."""
    s = ctx.int('s', 1, 1 << 12)
    addr = 0x40380400
    fn = write_map(ctx, 'app.map', 'esp32', s, addr)
    write_elf(ctx, 'app.elf', 'from_elf', s, addr)
    d = {'target': 'esp32s3', 'project_name': 'app', 'build_dir': ctx.tmp(), 'app_bin': 'app.bin'}
    if ctx.flag('other'):
        d['app_elf'] = 'other.elf'
    ctx.write('project_description.json', json.dumps(d))
    m, exc = ctx.call(ctx.mod('memorymap').get, fn)
    ctx.check('unused', exc is None and m['target'] == 'esp32' and symbols(m) == ['.text.fallback'], (repr(exc), m))


def summary(ctx):
    """The executable decides about the sections also where no symbols are asked for."""
    s, s2 = ctx.int('s', 1, 1 << 12), ctx.int('s2', 1, 1 << 12)
    addr = 0x40380400
    text = map_text(ctx, [('seg', 0x40380000, 0x20000, 'xrw')],
                    [('.iram0.text', addr, s, isec_lines(ctx, '.text.a', addr, s, 'l.a(a.o)')),
                     ('.odd.name', addr + s, s2, isec_lines(ctx, '.odd.b', addr + s, s2, 'l.a(b.o)'))], target='esp32s3')
    fn = ctx.write('app.map', text)
    ctx.write('project_description.json', json.dumps({'app_elf': 'app.elf', 'target': 'esp32s3'}))
    both = ctx.flag('both')
    secs = [('.iram0.text', SHT_PROGBITS, SHF_ALLOC, addr, s)] + [('.odd.name', SHT_PROGBITS, SHF_ALLOC, addr + s, s2)] * both
    ctx.write_bytes('app.elf', elf_bytes(ctx, secs, []))
    want = s + s2 if both else s
    m, exc = ctx.call(ctx.mod('memorymap').get, fn, ctx.flag('load_symbols'))
    ctx.check('works', exc is None, repr(exc))
    if exc is None:
        ctx.check('used', ctx.eq(ctx.sum(t['used'] for t in m['memory_types'].values()), want))
        ctx.check('image', ctx.eq(m['image_size'], want), m['image_size'])
    r = ctx.cli([fn, '--format', 'json2'])
    ctx.check('cli', r.code == 0, r)
    if r.code == 0:
        j = ctx.loads(r.out)
        ctx.check('cli-figures', ctx.And(ctx.eq(ctx.sum(x['used'] for x in j['layout']), want), ctx.eq(j['total_size'], want)), r.out[:300])


def reference(ctx):
    """In a comparison each project comes with its own ELF file and target."""
    s, s2 = ctx.int('s', 1, 1 << 12), ctx.int('s2', 1, 1 << 12)
    addr = 0x40380400
    fns = []
    ta, tb = ctx.choice('targets', [('esp32s3', 'esp32s3'), ('esp32s3', 'esp32c3'), ('esp32c3', 'esp32s3')])
    for d, size, t in (('one', s, ta), ('two', s2, tb)):
        fns.append(write_map(ctx, f'{d}/app.map', t, size, addr))
        write_elf(ctx, f'{d}/app.elf', 'f_' + d, size, addr)
        ctx.write(f'{d}/project_description.json', json.dumps({'app_elf': 'app.elf', 'target': t}))
    r = ctx.cli([fns[0], '--diff', fns[1], '--format', 'raw'])
    ctx.check('works', r.code == 0, r)
    if r.code == 0:
        m = ctx.loads(r.out)
        ctx.check('targets', (m['target'], m['target_diff']) == (ta, tb))
        ctx.check('paths', (m['project_path'], m['project_path_diff']) == tuple(fns))
        ctx.check('symbols', symbols(m) == ['f_one()', 'f_two()'], symbols(m))
        for name, v, d in (('f_one()', s, s), ('f_two()', 0, -s2)):
            for p, lv, i in nodes(m):
                if lv == 'symbols' and p[-1] == name:
                    ctx.check('size', ctx.And(ctx.eq(i['size'], v), ctx.eq(i['size_diff'], d)), name)


def scenarios(tier):
    return [sc('association', association, f'{len(MAPS)} map names, {len(ELFS)} executables or no description, chip in the map or not, ELF file '
               'present or not', params=dict(cli=False), cost=3),
            sc('association-cli', association, 'the same through the command line', params=dict(cli=True), cost=4),
            sc('supplied', supplied, 'map file and ELF file given by the caller or not, with and without own ELF file'),
            sc('broken', broken, 'ELF file cut at about 30 lengths or foreign contents',
               params=dict(sizes=[-1, -4, -52, -600, 0] + list(range(1, 60, 5)) + list(range(60, 360, 25)))),
            sc('relocated', relocated, '2 copies of a project, 4 ways to name the map file'),
            sc('linked', linked, 'map file given as a link of the same or another name, 3 descriptions beside the link'),
            sc('unnamed', unnamed, 'description without the name of an executable or of another one'),
            sc('summary', summary, '2 sections of which the executable has 1 or 2, with and without symbols'),
            sc('reference', reference, '2 projects, 3 pairs of chips')]
