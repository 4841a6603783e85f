"""Contracts of functions of novatel_edie used at call sites (each is discharged against its body by a driver of its own), and
assumed contracts of dependencies, by set name."""
import re
import z3
import crcspec

SETS = {}


def contractset(name):
    def d(f):
        SETS[name] = f
        return f
    return d


@contractset('crc32')
def _crc32():
    """CalculateBlockCrc<uint32_t,0xEDB88320,true>(ptr,n,init): the reference register (discharged by drv_block_u32_r)"""
    return [(re.compile(r'CalculateBlockCrc<unsigned int, 3988292384u, true>\(unsigned char const\*'), crcspec.block_contract(32, 0xEDB88320, True))]


@contractset('bits')
def _bits():
    """PopCount / Lsb: number of set bits, position of the lowest one (discharged by drv_pop_* and drv_lsb_*)"""
    def pop(e, st, fn, a, i):
        v = a[0]
        r = z3.BitVecVal(0, 32)
        for k in range(v.size()):
            r = r + z3.ZeroExt(31, z3.Extract(k, k, v))
        return z3.simplify(r)

    def lsb(e, st, fn, a, i):
        v = a[0]
        r = z3.BitVecVal(v.size(), 32)
        for k in reversed(range(v.size())):
            r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, 32), r)
        return z3.simplify(r)
    return [(re.compile(r'unsigned int novatel::edie::oem::PopCount<'), pop), (re.compile(r'unsigned int novatel::edie::oem::Lsb<'), lsb)]


@contractset('wavelength')
def _wavelength():
    """ChannelTrackingStatus::GetSignalWavelength: a function of the object's state and the frequency number that throws nothing for
    numbers 0..20 (discharged by drv_cts_wavelength; which number it is does not matter to the caller)"""
    F = {}

    def h(e, st, fn, a, i):
        k = a[1]
        e.oblige(st, z3.And(k >= 0, k <= 20), 'frequency-number-in-range', '', i.get('loc'))
        # the state it depends on: satellite system and signal type (drv_cts_wavelength: the result is a function of these)
        lay = bytes.fromhex(e.m.globals['vc_cts_layout']['init'])
        bs = []
        for q in range(0, len(lay), 16):
            o, n = (int.from_bytes(lay[q + 8 * j:q + 8 * j + 8], 'little') for j in (0, 1))
            bs.append(e.as_bv(e.mread(st, a[0].obj, add_(a[0].off, o), n)))
        v = z3.simplify(z3.Concat(*bs))
        f = F.setdefault(v.size(), z3.Function('wavelength%d' % v.size(), v.sort(), k.sort(), z3.Float64()))
        return f(v, k)

    def add_(a, j):
        from engine import add, BV
        return add(a, BV(j))
    return [(re.compile(r'novatel::edie::oem::ChannelTrackingStatus::GetSignalWavelength'), h)]


@contractset('crcfn')
def _crcfn():
    """CalculateBlockCrc<uint32_t,0xEDB88320,true>(ptr,n,init): reads [ptr,ptr+n) only and returns a function of those bytes and init
    (C01, C02: drv_block_u32_r); the value stays uninterpreted"""
    F = {}

    def h(e, st, fn, a, i):
        p, n, init = a[0], a[1], a[2]
        if e.feasible(st, n != 0) and not e.access(st, p, z3.ZeroExt(32, n), 'read', i.get('loc')):
            return 'stop'
        m = st.mem[p.obj.id]
        key = (p.obj.id, id(m.tail), tuple(sorted((k, id(v[1])) for k, v in m.cells.items())))
        if key not in F:
            F[key] = (z3.Function(e.freshname('crc'), z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32)), m)
        return F[key][0](p.off, n, init)
    return [(re.compile(r'CalculateBlockCrc<unsigned int, 3988292384u, true>\(unsigned char const\*|CalculateBlockCrc32\(unsigned char const\*, unsigned int, unsigned int\)'), h)]


@contractset('fromchars')
def _fromchars():
    """std::from_chars(p, p + n, unsigned& v, 16), n = 8 or 2: n hexadecimal digits give their value; other texts an unspecified function of
    the characters (discharged by drv_fromchars, drv_fromchars_2)"""
    F = {}

    def h(e, st, fn, a, i):
        from engine import BV, cval, is_c, simp, sub, Unsupported, Ptr, add
        p, q, vp, base = a[0], a[1], a[2], a[3]
        n = simp(q.off - p.off) if q.obj is p.obj else None
        N = next((k for k in (8, 2) if n is not None and e.must(st, z3.And(n == k, base == 16))), None)
        if N is None:
            raise Unsupported('from_chars other than eight or two characters in base 16')
        if not e.access(st, p, BV(N), 'read', i.get('loc')):
            return 'stop'
        bs = [e.as_bv(e.mread(st, p.obj, add(p.off, BV(k)), 1)) for k in range(N)]
        txt = z3.Concat(*([z3.BitVecVal(0, 64 - 8 * N)] if N < 8 else []), *reversed(bs))
        if not F:
            F['v'] = z3.Function('fromchars_v', z3.BitVecSort(64), z3.BitVecSort(32))
            F['ok'] = z3.Function('fromchars_ok', z3.BitVecSort(64), z3.BoolSort())
            F['n'] = z3.Function('fromchars_n', z3.BitVecSort(64), z3.BitVecSort(64))

        def dig(c):
            r = lambda x, y: z3.And(z3.UGE(c, ord(x)), z3.ULE(c, ord(y)))
            return z3.Or(r('0', '9'), r('a', 'f'), r('A', 'F'))

        def val(c):
            return z3.ZeroExt(24, (c & 15) + z3.LShR(c, 6) * 9)
        alld = z3.And(*[dig(c) for c in bs])
        w = BV(0, 32)
        for c in bs:
            w = (w << 4) | val(c)
        ok = z3.If(alld, z3.BoolVal(True), F['ok'](txt))
        old = e.as_bv(e.mread(st, vp.obj, vp.off, 4))
        e.mwrite(st, vp.obj, vp.off, 4, simp(z3.If(ok, z3.If(alld, w, F['v'](txt)), old)))
        end = z3.If(alld, BV(N), z3.URem(F['n'](txt), BV(N + 1)))
        return [Ptr(p.obj, simp(p.off + end)), simp(z3.If(ok, BV(0, 32), BV(22, 32)))]
    return [(re.compile(r'std::from_chars<unsigned int|from_chars<unsigned int'), h)]


def redirect(name):
    def h(e, st, fn, a, i):
        g = e.m.fns.get(name)
        if g is None or g.blocks is None:
            from engine import Unsupported
            raise Unsupported('contract %s is not in the module' % name)
        return ('redirect', g)
    return h


@contractset('search')
def _search():
    """FixedBuffer::search_chars<1|2|3>: drivers/fbcontracts.h (discharged by drv_search_1, _2, _3)"""
    return [(re.compile(r'FixedBuffer<unsigned char>::search_chars<%dul,' % k), redirect('vcc_search_chars_%d' % k)) for k in (1, 2, 3)]


@contractset('charcrc')
def _charcrc():
    """CalculateCharacterCrc32: the contract in drivers/oemframer.cpp (one more byte of the block CRC; C02, C03)"""
    return [(re.compile(r'CalculateCharacterCrc32\('), redirect('vcc_char_crc'))]


@contractset('log')
def _log():
    """spdlog: logging changes nothing the code observes (assumed)"""
    def nop(e, st, fn, a, i):
        return None
    return [(re.compile(r'^(void )?spdlog::logger::(trace|debug|info|warn|error|critical|log|log_)[<(]'), nop)]


@contractset('extract')
def _extract():
    """ExtractBitfield: takes the next n bits of a little-endian bit stream, or throws and takes nothing when fewer remain
    (discharged by drv_bits_*). Precondition: the bytes left are accessible, bit offset below 8 (0 when no bytes are left)."""
    from engine import BV, Ptr, is_c, cval, simp, add, b2i, Unsupported

    def field(e, st, p, off, bits):
        """bits (int or term) from bit `off` of the stream at p, as 64-bit term"""
        fixed = isinstance(bits, int)
        if fixed and is_c(off):
            o = cval(off)
            n = (o + bits + 7) // 8
            bs = [e.as_bv(e.mread(st, p.obj, add(p.off, BV(k)), 1)) for k in range(n)]
            v = z3.Concat(*reversed(bs)) if n > 1 else bs[0]
            return simp(z3.ZeroExt(64 - bits, z3.Extract(o + bits - 1, o, v)) if bits < 64 else z3.Extract(o + 63, o, v))
        bs = [e.as_bv(e.mread(st, p.obj, add(p.off, BV(k)), 1)) for k in range(9)]
        v = z3.ZeroExt(8, z3.Concat(*reversed(bs)))
        v = z3.Extract(63, 0, z3.LShR(v, z3.ZeroExt(80 - off.size(), off)))
        if fixed:
            return simp(v & z3.BitVecVal((1 << bits) - 1, 64))
        b64 = z3.ZeroExt(64 - bits.size(), bits)
        return simp(v & z3.If(z3.ULT(b64, 64), (z3.BitVecVal(1, 64) << b64) - 1, z3.BitVecVal(-1, 64)))

    def handler(e, st, fn, a, i):
        m = re.search(r'ExtractBitfield<([\w ]+?)(?:, (\d+)u)?>\(', fn.dem)
        ty = i['ty']
        pp, lp, op = a[0], a[1], a[2]
        ptr = e.mread(st, pp.obj, pp.off, 8)
        ptr = ptr if isinstance(ptr, Ptr) else e.to_ptr(st, ptr)
        left = e.as_bv(e.mread(st, lp.obj, lp.off, 4))
        off = e.as_bv(e.mread(st, op.obj, op.off, 4))
        loc = i.get('loc')
        e.oblige(st, z3.And(z3.ULT(off, 8), z3.ULT(left, 1 << 28), z3.Or(z3.UGT(left, 0), off == 0)), 'bit-stream-state', '', loc)
        width = {'bool': 8, 'float': 32, 'double': 64}.get(m.group(1)) or {'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
                                                                          'unsigned int': 32, 'long': 64, 'unsigned long': 64}[m.group(1)]
        if m.group(2) is not None:
            bits = int(m.group(2))
            b32 = z3.BitVecVal(bits, 32)
            wide = z3.BoolVal(False)
        else:
            b32 = a[3]
            wide = z3.UGT(b32, width)
            bits = cval(b32) if is_c(b32) else b32
        refuse = simp(z3.Or(wide, z3.UGT(b32, left * 8 - off)))
        out = []
        if e.feasible(st, refuse):
            t = st.copy()
            e.assume(t, refuse)
            e.throw(t, '_ZTISt13runtime_error', None, loc)
            out.append((t, 'moved'))
        if e.feasible(st, z3.Not(refuse)):
            e.assume(st, z3.Not(refuse))
            if not is_c(left) or cval(left) > 0:
                if not e.access(st, ptr, z3.ZeroExt(32, left), 'read', loc):
                    return 'stop' if not out else ('fork', out)
            # a zero-length field reads nothing that matters
            v = field(e, st, ptr, simp(off), bits)
            tot = simp(off + b32)
            used = simp(z3.LShR(tot, 3))
            e.mwrite(st, pp.obj, pp.off, 8, Ptr(ptr.obj, add(ptr.off, simp(z3.ZeroExt(32, used)))))
            e.mwrite(st, lp.obj, lp.off, 4, simp(left - used))
            e.mwrite(st, op.obj, op.off, 4, simp(tot & 7))
            if ty[0] == 'f':
                r = simp(z3.fpToFPUnsigned(z3.RNE(), v, z3.Float32() if ty[1] == 32 else z3.Float64()))
            elif ty[1] == 1:
                r = simp(v != 0)
            else:
                r = simp(z3.Extract(ty[1] - 1, 0, v)) if ty[1] < 64 else v
            out.append((st, r))
        return ('fork', out)
    return [(re.compile(r'novatel::edie::oem::ExtractBitfield<'), handler)]


def build(sets):
    out = []
    for s in sets:
        if s in SETS:
            out += SETS[s]()
    return out


def opts(sets):
    return {}


def install(e, sets):
    if 'maps' in sets:
        import maps
        maps.MapC(e).install()
