"""C19: the output file holds the whole report or is left alone."""
import os

from .common import sc, args
from . import reports as R
from .c18 import PLAIN, ONE, REF2, DOSECS, DCRT

ASSUMPTIONS = ['failures: 14 kinds of bad input or options, or the terminal library failing at any of its first calls']

OLD = 'previous report\n'


def target(ctx):
    """(path, existed before)"""
    where = ctx.choice('where', ['old', 'new', 'deep'])
    p = ctx.path('out/report.txt') if where != 'deep' else os.path.join(ctx.tmp(), 'deep', 'er', 'report.txt')
    if where == 'old':
        with open(p, 'w') as f:
            f.write(OLD)
    return p, where == 'old'


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, encoding='utf-8') as f:
        return f.read()


def success(ctx, fmt, opts, diff=False, deps=False):
    if deps:
        fn = R.project(ctx, 'cur', DOSECS, syms=[('s0', '.data.v0'), ('s1', '.data.v0'), ('s2', '.data.v1')], crt=DCRT)
    else:
        fn = R.project(ctx, 'cur', ONE if diff else PLAIN)
    rf = R.project(ctx, 'ref', REF2) if diff else None
    a = args(format=fmt, diff=rf, **opts)
    p, _ = target(ctx)
    plain = ctx.cli(R.argv(fn, rf, a))
    ctx.check('works', plain.code == 0 and plain.exc is None, plain)
    r = ctx.cli(R.argv(fn, rf, a) + ['-o', p])
    ctx.check('works-o', r.code == 0 and r.exc is None, r)
    ctx.check('no-stdout', r.out == '', r.out[:200])
    ctx.check('same', read(p) == plain.out, (read(p) or '')[:200])
    ctx.check('not-empty', len(read(p) or '') > 10)
    q = ctx.cli(R.argv(fn, rf, a) + ['-o', p, '--force-terminal'])
    ctx.check('no-control-codes', q.code == 0 and read(p) == plain.out, (read(p) or '')[:200])
    # a terminal library told by the environment that it writes to a terminal
    q = ctx.cli(R.argv(fn, rf, a) + ['-o', p], env={'FORCE_COLOR': '1', 'TERM': 'xterm-256color', 'COLORTERM': 'truecolor'})
    ctx.check('no-control-codes-env', q.code == 0 and read(p) == plain.out, (read(p) or '')[:200])
    quiet = ctx.cli(R.argv(fn, rf, a) + ['-q'])
    q = ctx.cli(R.argv(fn, rf, a) + ['-q', '-o', p])
    ctx.check('quiet', q.code == quiet.code == 0 and q.out == '' and read(p) == quiet.out, (read(p) or '')[:200])


NAMED = [('.dram0.data', [('.data.größe', '/b/x/libü.a(m.o)'), ('.data.w', '/b/y/liby.a(ñ→.o)')])]


def encoded(ctx, fmt, opts):
    """The encoding of the locale cannot represent all characters of the report."""
    fn = R.project(ctx, 'cur', NAMED)
    enc = ctx.choice('encoding', ['utf-8', 'ascii', 'latin-1', 'cp1252'])
    a = args(format=fmt, **opts)
    p, _ = target(ctx)
    plain = ctx.cli(R.argv(fn, None, a), encoding=enc)
    ctx.check('works', plain.code == 0 and plain.exc is None, plain)
    r = ctx.cli(R.argv(fn, None, a) + ['-o', p], encoding=enc)
    ctx.check('works-o', r.code == 0 and r.exc is None, (enc, r))
    if not os.path.exists(p):
        return ctx.check('written', False)
    with open(p, 'rb') as f:
        got = f.read()
    # the encoding of the process itself is UTF-8, whatever the locale module is made to tell
    want = (plain.out.encode(enc, 'backslashreplace'), plain.out.encode('utf-8'))
    ctx.check('same', got in want, (enc, got[:300]))


BAD = ['no-map', 'empty-map', 'bad-number', 'no-target', 'bad-target', 'no-diff', 'bad-diff', 'archive', 'sort-0', 'sort-99', 'sort-name', 'dot', 'deps',
       'deps-no-elf']


def failure(ctx, fmts):
    kind = ctx.choice('kind', BAD)
    fmt = ctx.choice('fmt', fmts)
    fn = R.project(ctx, 'cur', PLAIN)
    opts, argv = {}, []
    if kind == 'no-map':
        fn = os.path.join(ctx.tmp(), 'missing.map')
    elif kind == 'empty-map':
        fn = ctx.write('x.map', '\n')
    elif kind == 'bad-number':
        fn = ctx.write('x.map', 'Memory Configuration\n\nName             Origin             Length             Attributes\n'
                                'iram0_0_seg 0xZZ 0x100 xr\n\nLinker script and memory map\n\n')
    elif kind == 'no-target':
        fn = ctx.write('x.map', 'Memory Configuration\n\nName             Origin             Length             Attributes\n'
                                'iram0_0_seg 0x0000000040374000 0x0000000000001000 xr\n\nLinker script and memory map\n\n'
                                '.iram0.text     0x0000000040374000       0x10\n')
    elif kind == 'bad-target':
        fn = R.write_project(ctx, R.map_text(ctx, R.REGIONS, [], target='esp99'), None, name='x')
    elif kind == 'no-diff':
        opts['diff'] = os.path.join(ctx.tmp(), 'missing.map')
    elif kind == 'bad-diff':
        opts['diff'] = ctx.write('x.map', 'Memory Configuration\n')
    elif kind == 'archive':
        opts['archive_details'] = 'libnix.a'
    elif kind == 'sort-0':
        opts['sort'] = '0'
    elif kind == 'sort-99':
        opts['sort'] = '99'
    elif kind == 'sort-name':
        opts['sort'] = 'nix'
    elif kind == 'dot':
        # everything a dependency report needs, but none was asked for
        fn = R.project(ctx, 'dep', DOSECS, syms=[('s0', '.data.v0'), ('s1', '.data.v0'), ('s2', '.data.v1')], crt=DCRT)
        fmt = 'dot'
    elif kind == 'deps':
        fn = R.project(ctx, 'dep', DOSECS, syms=[('s0', '.data.v0'), ('s1', '.data.v0'), ('s2', '.data.v1')])
        opts['archive_dependencies'] = True
    elif kind == 'deps-no-elf':
        fn = R.project(ctx, 'dep', DOSECS, crt=DCRT)
        opts['archive_dependencies'] = True
    if kind.startswith('sort') and fmt not in ('table', 'csv'):
        fmt = 'csv'
    if kind == 'archive' and fmt in ('raw', 'tree'):
        fmt = 'json2'
    p, old = target(ctx)
    a = args(format=fmt, **opts)
    r = ctx.cli(R.argv(fn, opts.get('diff'), a) + ['-o', p])
    ctx.check('fails', r.code not in (0, None), (kind, r))
    ctx.check('untouched', read(p) == (OLD if old else None), (kind, read(p)))
    ctx.check('nothing-on-stdout', r.out == '', r.out[:100])
    if kind == 'bad-number':
        return
    ctx.check('clean', r.exc is None or isinstance(r.exc, SystemExit), (kind, r.exc))
    r = ctx.cli(R.argv(fn, opts.get('diff'), a))
    ctx.check('fails-too', r.code not in (0, None) and (r.exc is None or isinstance(r.exc, SystemExit)), (kind, r))
    ctx.check('message', len(r.err.strip()) > 0, kind)


class Boom(Exception):
    pass


def fault(ctx, fmt, opts, n, diff=False, how='print'):
    """The n-th call into the terminal library fails."""
    import rich.console
    import rich.table
    import rich.tree
    fn = R.project(ctx, 'cur', ONE if diff else PLAIN)
    rf = R.project(ctx, 'ref', REF2) if diff else None
    a = args(format=fmt, diff=rf, **opts)
    p, old = target(ctx)
    at = ctx.choice('call', range(n))
    exc = ctx.choice('exc', [Boom, KeyboardInterrupt])
    cls, name = {'print': (rich.console.Console, 'print'), 'row': (rich.table.Table, 'add_row'), 'tree': (rich.tree.Tree, 'add')}[how]
    orig = getattr(cls, name)
    cnt = [0]

    def failing(self, *x, **k):
        cnt[0] += 1
        if cnt[0] == at + 1:
            raise exc('injected')
        return orig(self, *x, **k)
    setattr(cls, name, failing)
    to = ctx.choice('to', ['file', 'stdout'])
    try:
        r = ctx.cli(R.argv(fn, rf, a) + (['-o', p] if to == 'file' else []))
    finally:
        setattr(cls, name, orig)
    if cnt[0] > at:
        ctx.check('fails', r.code != 0, r)
        ctx.check('untouched', read(p) == (OLD if old else None), (read(p) or '')[:200])
    else:
        ctx.check('done', r.code == 0 and (read(p) not in (None, OLD) if to == 'file' else len(r.out) > 10), r)


def unwritable(ctx):
    """The file cannot be written: an error, not success."""
    fn = R.project(ctx, 'cur', REF2)
    kind = ctx.choice('kind', ['dir', 'parent-is-file'])
    if kind == 'dir':
        p = ctx.tmp()
    else:
        f = ctx.path('plain')
        with open(f, 'w') as fd:
            fd.write(OLD)
        p = os.path.join(f, 'x')
    r = ctx.cli([fn, '-o', p])
    ctx.check('fails', r.code not in (0, None) and (r.exc is None or isinstance(r.exc, SystemExit)), r)
    ctx.check('message', len(r.err.strip()) > 0)
    if kind != 'dir':
        ctx.check('untouched', read(f) == OLD)


NAMES = ['-', 'report', 'a b.txt', 'größe.json', '[bold].csv', 'x.gz', '~', '%s{0}$HOME', 'stdout', '.hidden', '0']


def named(ctx, fmt, opts):
    """Any name is that of a file, also relative to the working directory."""
    fn = R.project(ctx, 'cur', PLAIN)
    name = ctx.choice('name', NAMES)
    a = args(format=fmt, **opts)
    plain = ctx.cli(R.argv(fn, None, a))
    ctx.check('works', plain.code == 0 and plain.exc is None, plain)
    d = os.path.join(ctx.tmp(), 'cwd')
    os.makedirs(d, exist_ok=True)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        p = name if ctx.flag('relative') else os.path.join(d, name)
        r = ctx.cli(R.argv(fn, None, a) + ['--output-file=' + p])
    finally:
        os.chdir(cwd)
    ctx.check('works-o', r.code == 0 and r.exc is None, r)
    ctx.check('no-stdout', r.out == '', r.out[:200])
    ctx.check('same', read(os.path.join(d, name)) == plain.out, name)
    ctx.check('alone', os.listdir(d) == [name], os.listdir(d))


def scenarios(tier):
    out = []
    for fmt, o in (('table', {}), ('csv', dict(archives=True)), ('json2', {}), ('tree', {}), ('raw', {})):
        out.append(sc(f'named-{fmt}', named, f'{len(NAMES)} names of the output file, absolute or relative, sizes symbolic', params=dict(fmt=fmt, opts=o)))
    kinds = [('summary', {}), ('archives', dict(archives=True)), ('files', dict(files=True)), ('details', dict(archive_details='libx.a'))]
    for fmt in ('table', 'csv', 'json2', 'tree', 'raw'):
        for k, o in kinds if fmt != 'raw' else kinds[:1]:
            out.append(sc(f'ok-{fmt}-{k}', success, f'{fmt} {k} report to a new or existing file, sizes symbolic', params=dict(fmt=fmt, opts=o)))
            out.append(sc(f'fault-{fmt}-{k}', fault, 'one of the first 8 calls of the terminal library fails',
                          params=dict(fmt=fmt, opts=o, n=8)))
        out.append(sc(f'ok-{fmt}-diff', success, f'{fmt} comparison to a file', params=dict(fmt=fmt, opts=dict(show_unchanged=True), diff=True), cost=4))
        out.append(sc(f'failure-{fmt}', failure, f'{len(BAD)} kinds of failure', params=dict(fmts=[fmt]), cost=2))
    for fmt in ('table', 'csv'):
        for k, o in kinds:
            out.append(sc(f'fault-row-{fmt}-{k}', fault, 'one of the first 8 rows of the table fails', params=dict(fmt=fmt, opts=o, n=8, how='row')))
    out.append(sc('fault-tree', fault, 'one of the first 8 nodes of the tree fails', params=dict(fmt='tree', opts={}, n=8, how='tree')))
    out.append(sc('fault-diff', fault, 'comparison: one of the first 8 calls of the terminal library fails',
                  params=dict(fmt='table', opts={}, n=8, diff=True)))
    for fmt in ('table', 'csv', 'json2', 'tree', 'raw', 'dot'):
        out.append(sc(f'ok-deps-{fmt}', success, f'{fmt} dependency report to a file', params=dict(fmt=fmt, deps=True,
                                                                                                   opts=dict(archive_dependencies=True, dep_symbols=True))))
    for fmt, o in (('table', dict(archives=True)), ('csv', dict(files=True)), ('tree', {}), ('json2', dict(archives=True))):
        out.append(sc(f'encoded-{fmt}', encoded, 'names with characters outside ASCII, 4 encodings of the locale', params=dict(fmt=fmt, opts=o)))
    out.append(sc('unwritable', unwritable, '2 places that cannot be written'))
    return out
