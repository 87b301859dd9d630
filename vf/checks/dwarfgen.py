"""Builds .debug_abbrev/.debug_info contents as lists of (possibly symbolic) bytes."""

TAG_CU, TAG_SUB, TAG_VAR, TAG_BASE, TAG_LEX, TAG_NS = 0x11, 0x2e, 0x34, 0x24, 0x0b, 0x39
AT_name, AT_low_pc, AT_location, AT_abstract_origin, AT_language, AT_x = 0x03, 0x11, 0x02, 0x31, 0x13, 0x2007
F = dict(addr=0x01, block2=0x03, block4=0x04, data2=0x05, data4=0x06, data8=0x07, string=0x08, block=0x09, block1=0x0a,
         data1=0x0b, flag=0x0c, sdata=0x0d, strp=0x0e, udata=0x0f, ref_addr=0x10, ref1=0x11, ref2=0x12, ref4=0x13, ref8=0x14,
         ref_udata=0x15, sec_offset=0x17, exprloc=0x18, flag_present=0x19, strx=0x1a, ref_sup4=0x1c, strp_sup=0x1d,
         data16=0x1e, line_strp=0x1f, ref_sig8=0x20, implicit_const=0x21, loclistx=0x22, rnglistx=0x23, ref_sup8=0x24,
         strx1=0x25, strx2=0x26, strx3=0x27, strx4=0x28)


def uleb(n):
    out = []
    while True:
        b = n & 0x7f
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return out


def sleb(n):
    out = []
    while True:
        b = n & 0x7f
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        out.append(b | (0 if done else 0x80))
        if done:
            return out


def abbrevs(entries):
    """entries: (code, tag, children, [(attr, form name[, constant bytes])])"""
    out = []
    for code, tag, children, attrs in entries:
        out += uleb(code) + uleb(tag) + [1 if children else 0]
        for a in attrs:
            out += uleb(a[0]) + uleb(F[a[1]])
            if a[1] == 'implicit_const':
                out += a[2]
        out += [0, 0]
    return out + [0]


def cu(ctx, dies, version=4, asize=4, abbrev_off=0, big=False, dw64=False):
    """One compilation unit around the DIE bytes."""
    f = lambda n, size: ctx.field(n, size, big)
    osz = 8 if dw64 else 4
    if version >= 5:
        hdr = f(version, 2) + [1, asize] + f(abbrev_off, osz)
    else:
        hdr = f(version, 2) + f(abbrev_off, osz) + [asize]
    body = hdr + dies
    return (f(0xffffffff, 4) + f(len(body), 8) if dw64 else f(len(body), 4)) + body


def hdr_len(version=4, dw64=False):
    return (12 if dw64 else 4) + 2 + (8 if dw64 else 4) + (2 if version >= 5 else 1)
