"""DLLP layout, round trip, CRC (P02); DLLP part of P04."""
from vc.reg import contract

# type byte as in table 3-1 of the base specification
CODE = dict(ACK=0x00, NAK=0x10, PM_ENTER_L1=0x20, PM_ENTER_L23=0x21, PM_ACT_ST_REQ_L1=0x23, PM_REQ_ACK=0x24,
            NOP=0x31, DATA_LINK_FEATURE=0x02,
            INIT_FC1_P=0x40, INIT_FC1_NP=0x50, INIT_FC1_CPL=0x60, INIT_FC2_P=0xc0, INIT_FC2_NP=0xd0,
            INIT_FC2_CPL=0xe0, UPDATE_FC_P=0x80, UPDATE_FC_NP=0x90, UPDATE_FC_CPL=0xa0)
FC = [n for n in CODE if 'FC' in n]
DF = ['type', 'seq', 'vc', 'hdr_scale', 'hdr_fc', 'data_scale', 'data_fc', 'feature_support', 'feature_ack']


def sym_dllp(v, name):
    D = v.mod('core.dllp')
    d = D.Dllp()
    d.type = D.DllpType[name]
    if name in ('ACK', 'NAK'):
        d.seq = v.bits('seq', 12)
    elif name == 'DATA_LINK_FEATURE':
        d.feature_support = v.bits('feat', 23)
        d.feature_ack = v.bool('fack')
    elif name in FC:
        d.vc = v.bits('vc', 3)
        d.hdr_scale = D.FcScale(v.bits('hs', 2))
        d.hdr_fc = v.bits('hfc', 8)
        d.data_scale = D.FcScale(v.bits('ds', 2))
        d.data_fc = v.bits('dfc', 12)
    return d


def spec_bytes(v, d, name):
    if name in ('ACK', 'NAK'):
        return [CODE[name], 0, d.seq >> 8, d.seq & 0xff]
    if name == 'DATA_LINK_FEATURE':
        f = d.feature_support
        return [2, v.ite(d.feature_ack, 0x80, 0) | f >> 16, f >> 8 & 0xff, f & 0xff]
    if name in FC:
        return [CODE[name] | d.vc, d.hdr_scale << 6 | d.hdr_fc >> 2, (d.hdr_fc & 3) << 6 | d.data_scale << 4
                | d.data_fc >> 8, d.data_fc & 0xff]
    return [CODE[name], 0, 0, 0]


def spec_crc(v, items):
    """CRC-16, polynomial 0x100B, bit order of the base specification section 3.6.1"""
    crc = [1] * 16                      # bit i of the LFSR, 15 = oldest
    for b in items:
        for k in range(8):
            inv = crc[15] ^ (b >> k & 1)
            crc = [inv] + crc[:15]
            for p in (1, 3, 12):
                crc[p] = crc[p] ^ inv
    # complemented, bit 15 of the LFSR goes to bit 0 of the first byte
    out = []
    for byte in range(2):
        x = 0
        for k in range(8):
            x = x | (crc[15 - 8 * byte - k] ^ 1) << k
        out.append(x)
    return out


@contract('P02', cases=sorted(CODE), covers=['m'])
def dllp_roundtrip(v, name):
    """pack gives the specification's bytes, unpack(pack(d)) == d field by field; likewise with CRC"""
    D = v.mod('core.dllp')
    d = sym_dllp(v, name)
    b = d.pack()
    v.cover('m')
    s = spec_bytes(v, d, name)
    v.check('size', v.len(b) == 4)
    for i in range(4):
        v.check('byte %d' % i, v.eq(v.byte(b, i), s[i]))
    u = D.Dllp.unpack(b)
    for f in DF:
        v.check('round trip ' + f, v.eq(getattr(u, f), getattr(d, f)))
    v.check('unpacked equals', v.truth(u == d))
    if v.symbolic:
        v.check_bytes('bytes()', d.__bytes__(), b)
    else:
        v.check_bytes('bytes()', bytes(d), b)


@contract('P02', cases=sorted(CODE), covers=['m'])
def dllp_unpack_spec(v, name):
    D = v.mod('core.dllp')
    d = sym_dllp(v, name)
    u = D.Dllp.unpack(v.mk_bytes(spec_bytes(v, d, name)))
    v.cover('m')
    for f in DF:
        v.check('field ' + f, v.eq(getattr(u, f), getattr(d, f)))


@contract('P02', cases=sorted(CODE), covers=['m'])
def dllp_crc_accept(v, name):
    """the CRC-protected form is the packed form plus the specification's CRC, and is accepted unmodified"""
    D = v.mod('core.dllp')
    d = sym_dllp(v, name)
    p = d.pack_crc()
    v.cover('m')
    s = spec_bytes(v, d, name)
    s = s + spec_crc(v, s)
    v.check('size', v.len(p) == 6)
    for i in range(6):
        v.check('byte %d' % i, v.eq_lin(v.byte(p, i), s[i]))
    u, e = v.raises(D.Dllp.unpack_crc, p)
    v.check('accepted', e is None)
    for f in DF:
        v.check('round trip ' + f, v.eq(getattr(u, f), getattr(d, f)))


def corrupted(v, name, err):
    """err: 6 byte values xored on the packet"""
    D = v.mod('core.dllp')
    d = sym_dllp(v, name)
    p = d.pack_crc()
    q = v.mk_bytes([v.byte(p, i) ^ err[i] for i in range(6)])
    return v.raises(D.Dllp.unpack_crc, q)


@contract('P02', cases=['ACK', 'NAK', 'NOP', 'INIT_FC1_P', 'UPDATE_FC_CPL', 'INIT_FC2_NP', 'DATA_LINK_FEATURE',
                        'PM_REQ_ACK'], covers=['m'])
def dllp_crc_burst(v, name):
    """any burst of up to 16 bits (so any single-bit error), at any position in transmission order, is rejected"""
    n = v.int('burst', 1, 0xffff)
    pos = v.int('pos', 0, 47)
    e = n << pos
    v.assume(e < 1 << 48)
    u, x = corrupted(v, name, [e >> (8 * i) & 0xff for i in range(6)])
    v.cover('m')
    v.check('burst error rejected', x is not None)


@contract('P02', cases=['ACK', 'NAK', 'NOP', 'INIT_FC1_CPL', 'UPDATE_FC_P', 'INIT_FC2_P', 'DATA_LINK_FEATURE',
                        'PM_ENTER_L1'], covers=['m'])
def dllp_crc_double(v, name):
    """any two-bit error is rejected"""
    a = v.int('a', 0, 47)
    b = v.int('b', 0, 47)
    v.assume(a < b)
    e = 1 << a | 1 << b
    u, x = corrupted(v, name, [e >> (8 * i) & 0xff for i in range(6)])
    v.cover('m')
    v.check('double-bit error rejected', x is not None)


@contract('P02', cases=list(range(0, 6)) + list(range(7, 13)), covers=['m'])
def dllp_wrong_length(v, n):
    """only 6-byte packets are accepted, whatever the bytes (also when the CRC residue happens to match)"""
    D = v.mod('core.dllp')
    b = v.bytes('pkt', n)
    u, x = v.raises(D.Dllp.unpack_crc, b)
    v.cover('m')
    v.check('wrong length rejected', x is not None)


@contract('P02', covers=['m'])
def dllp_wrong_length_valid_prefix(v):
    """a valid packet with trailing bytes or truncated is rejected"""
    D = v.mod('core.dllp')
    d = sym_dllp(v, v.choice('type', ['ACK', 'UPDATE_FC_P']))
    p = d.pack_crc()
    k = v.choice('n', [0, 1, 2, 3, 4, 5, 7, 8, 12])
    q = p[:k] if k < 6 else p + v.bytes('extra', k - 6)
    u, x = v.raises(D.Dllp.unpack_crc, q)
    v.cover('m')
    v.check('wrong length rejected', x is not None)


@contract('P02', covers=['ack', 'nak'])
def dllp_create(v):
    D = v.mod('core.dllp')
    s = v.bits('seq', 12)
    a = D.Dllp.create_ack(s)
    v.cover('ack')
    v.check('ack', v.And(a.type == D.DllpType.ACK, a.seq == s))
    n = D.Dllp.create_nak(s)
    v.cover('nak')
    v.check('nak', v.And(n.type == D.DllpType.NAK, n.seq == s))


@contract('P02', cases=sorted(FC), covers=['m'])
def dllp_fc_type(v, name):
    D = v.mod('core.dllp')
    d = sym_dllp(v, name)
    v.cover('m')
    want = D.FcType.CPL if name.endswith('_CPL') else D.FcType.NP if name.endswith('_NP') else D.FcType.P
    v.check('credit type', d.get_fc_type() == want)


def any_dllp(v, p):
    D = v.mod('core.dllp')
    return dict(type=D.DllpType[v.choice(p + 'type', sorted(CODE))], seq=v.bits(p + 'seq', 12), vc=v.bits(p + 'vc', 3),
                hdr_scale=v.bits(p + 'hs', 2), hdr_fc=v.bits(p + 'hfc', 8), data_scale=v.bits(p + 'ds', 2),
                data_fc=v.bits(p + 'dfc', 12), feature_support=v.bits(p + 'feat', 23), feature_ack=v.bool(p + 'fa'))


@contract('P04', covers=['copied'])
def dllp_copy(v):
    D = v.mod('core.dllp')
    d = any_dllp(v, '')
    a = D.Dllp()
    for k, x in d.items():
        setattr(a, k, x)
    c = D.Dllp(a)
    v.cover('copied')
    for k in d:
        v.check('copy of ' + k, v.eq(getattr(c, k), d[k]))
    v.check('copy compares equal', v.truth(a == c))


@contract('P04', cases=DF, covers=['same', 'differs'])
def dllp_equality(v, f):
    D = v.mod('core.dllp')
    d = any_dllp(v, '')
    a, b = D.Dllp(), D.Dllp()
    for k, x in d.items():
        setattr(a, k, x)
        setattr(b, k, x)
    if f == 'type':
        x = D.DllpType[v.choice('o.type', sorted(CODE))]
    else:
        x = {'seq': lambda: v.bits('o', 12), 'vc': lambda: v.bits('o', 3), 'hdr_scale': lambda: v.bits('o', 2),
             'hdr_fc': lambda: v.bits('o', 8), 'data_scale': lambda: v.bits('o', 2), 'data_fc': lambda: v.bits('o', 12),
             'feature_support': lambda: v.bits('o', 23), 'feature_ack': lambda: v.bool('o')}[f]()
    setattr(b, f, x)
    if v.eq(x, d[f]):
        v.cover('same')
        v.check('equal', v.truth(a == b))
    else:
        v.cover('differs')
        v.check('unequal when %s differs' % f, v.Not(v.truth(a == b)))
