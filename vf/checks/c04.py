"""C04: total size of each memory type."""
import itertools

from ..chips import CHIPS
from .common import sc, map_text, memmap_get

ASSUMPTIONS = ['origins and lengths below 2^31']


def windows(chip):
    """Disjoint address windows [(start, end, alias)] after 'first listed type wins'."""
    ws = []
    for key, alias, p, s, n in CHIPS[chip]:
        ws.append((p, p + n, alias))
        if s and s != p:
            ws.append((s, s + n, alias))
    return ws


def expected_parts(ctx, chip, origin, length, within=None, window=False):
    """[(condition, start, length, alias, type)] of a region cut at type boundaries; symbolic lengths may be 0."""
    out = []
    taken = []
    starts = {w: r[0] for r in runs(chip) for w in r[2]}
    for key, alias, p, s, n in CHIPS[chip]:
        for base in ([p] if not s or s == p else [p, s]):
            w = (base, base + n)
            if any(w == t for t in taken):
                continue  # an earlier type owns the whole window
            taken.append(w)
            if within and (w[1] <= within[0] or w[0] >= within[1]):
                continue  # out of the region's reach
            lo = ctx.ite(origin > w[0], origin, w[0])
            end = origin + length
            hi = ctx.ite(end < w[1], end, w[1])
            # a region (or the rest of it) that starts outside every window belongs to no memory type
            ln = ctx.ite(ctx.And(hi > lo, origin >= starts[w]), hi - lo, 0)
            out.append((lo, ln, alias, w if window else key))
    return out


def union(ctx, parts):
    """Number of bytes in the union of intervals (inclusion and exclusion)."""
    total = 0
    for n in range(1, len(parts) + 1):
        for c in itertools.combinations(parts, n):
            lo, hi = c[0]
            for a, b in c[1:]:
                lo, hi = ctx.ite(a > lo, a, lo), ctx.ite(b < hi, b, hi)
            common = ctx.ite(hi > lo, hi - lo, 0)
            total = total + common if n % 2 else total - common
    return total


ATTRS = ['rwx', 'rw', 'r', 'xr', 'xrw', 'axwl', '!i', '']
SEGS = ['iram0_0_seg', 'dram0_0_seg', 'irom_seg', 'rtc_data_seg', 'lp_ram', 'tcm_idram_seg', 'extern_ram_seg', 'seg']


def sizes(ctx, chip, windows_, n, kinds=None):
    """n regions, each placed symbolically anywhere in the given list of address spans."""
    regs, spans = [], []
    for i in range(n):
        lo, hi = ctx.choice(f'span{i}', windows_[i])
        o = ctx.int(f'o{i}', lo, hi - 1)
        l = ctx.int(f'l{i}', 0, 1 << 26)
        ctx.assume(o + l <= hi)
        k = ctx.choice(f'kind{i}', range(len(ATTRS))) if kinds is None else kinds + 3 * i
        regs.append((f'{SEGS[k % len(SEGS)]}{i}', o, l, ATTRS[k % len(ATTRS)]))
        spans.append((lo, hi))
    types = {k: (p, s, ln) for k, _, p, s, ln in CHIPS[chip]}
    # expected total per alias: the bytes of the union of the parts, seen from the start of their memory type
    exp = {alias: 0 for _, alias, _, _, _ in CHIPS[chip]}
    seen = {}
    for (name, o, l, _), span in zip(regs, spans):
        for lo, ln, alias, key in expected_parts(ctx, chip, o, l, span):
            p, s, tl = types[key]
            at = ctx.ite(ctx.And(lo >= p, lo < p + tl), lo - p, lo - s)
            seen.setdefault((alias, key), []).append((at, at + ln))
    for (alias, key), parts in seen.items():
        exp[alias] = exp[alias] + union(ctx, parts)
    fn = ctx.write('p.map', map_text(ctx, regs, [], target=chip))
    m = memmap_get(ctx, fn)
    ctx.check('types', sorted(m['memory_types']) == sorted(exp), sorted(m['memory_types']))
    ctx.check('target', m['target'] == chip)
    for alias, info in m['memory_types'].items():
        ctx.check('total', ctx.eq(info['size'], exp[alias]), (alias, info['size'], exp[alias]))
        ctx.check('unused', ctx.And(ctx.eq(info['used'], 0), len(info['sections']) == 0))
    ctx.observe('sizes', {k: v['size'] for k, v in m['memory_types'].items()})


def many(ctx, chip, n):
    """Many regions with space between them in the largest window of a chip."""
    key, alias, p, s, ln = max(CHIPS[chip], key=lambda t: t[4] if 'RAM' in t[1] and t[1] not in ('External RAM', 'SPI DRAM') else 0)
    step = min(ln // n, 0x4000)
    regs = [(f'{SEGS[i % len(SEGS)]}{i}', p + i * step, ctx.int(f'l{i}', 0, step - 1), ATTRS[i % len(ATTRS)]) for i in range(n)]
    if ctx.flag('back'):
        regs = regs[::-1]
    m = memmap_get(ctx, ctx.write('p.map', map_text(ctx, regs, [], target=chip)))
    for a, info in m['memory_types'].items():
        ctx.check('total', ctx.eq(info['size'], ctx.sum(r[2] for r in regs) if a == alias else 0), (a, info['size']))


def runs(chip):
    """Maximal runs of adjacent windows: [(start, end, [windows])]."""
    ws = sorted({(b, b + n) for _, _, p, s, n in CHIPS[chip] for b in ([p] if not s else [p, s])})
    out = []
    for a, b in ws:
        if out and out[-1][1] == a:
            out[-1][1] = b
            out[-1][2].append((a, b))
        else:
            out.append([a, b, [(a, b)]])
    return out


def groups(chip, margin=0x2000):
    """Runs, each extended on both sides by unassigned space (if any)."""
    rs = runs(chip)
    out = []
    for i, (a, b, _) in enumerate(rs):
        nxt = rs[i + 1][0] if i + 1 < len(rs) else 1 << 31
        prv = rs[i - 1][1] if i else 0
        out.append((max(a - margin, prv), min(b + margin, nxt)))
    return out


def scenarios(tier):
    out = []
    for chip in CHIPS:
        g = groups(chip)
        out.append(sc(f'one-{chip}', sizes,
                      '1 region with symbolic origin, length and attributes anywhere in a run of adjacent windows or past its end',
                      params=dict(chip=chip, windows_=[g], n=1)))
        for i, w in enumerate(g):
            out.append(sc(f'two-{chip}-{i}', sizes, '2 regions, symbolic origins and lengths, the first anywhere in one '
                          'run of adjacent windows (or past its end), the second in any run', cost=3,
                          params=dict(chip=chip, windows_=[[w], g], n=2, kinds=i)))
    for chip in CHIPS:
        # three overlapping regions in the run that holds the internal memory
        w = max(groups(chip), key=lambda g: sum(1 for _, al, p, s, n in CHIPS[chip] if 'RAM' in al and g[0] <= p < g[1]))
        out.append(sc(f'lap-{chip}', sizes, '3 regions, symbolic origins and lengths, all in the run of the internal memory', cost=4,
                      params=dict(chip=chip, windows_=[[w]] * 3, n=3, kinds=1)))
    for chip in CHIPS:
        out.append(sc(f'many-{chip}', many, '10 regions apart from each other in one window, symbolic lengths', params=dict(chip=chip, n=10)))
    if tier == 'thorough':
        for chip in CHIPS:
            g = groups(chip)
            for i, w in enumerate(g):
                for j, w2 in enumerate(g):
                    out.append(sc(f'three-{chip}-{i}-{j}', sizes, '3 regions with symbolic origins and lengths, every '
                                  'combination of runs of adjacent windows', cost=5,
                                  params=dict(chip=chip, windows_=[[w], [w2], g], n=3, kinds=i + j)))
    return out
