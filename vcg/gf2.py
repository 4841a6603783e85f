"""GF(2)-affine normal form for bit-vector terms, and a decision procedure for equalities of such terms.

Every bit of a term is represented as an integer bitmask over registered atom bits (bit 0 = the constant 1).
Non-affine sub-terms become opaque atoms, which is sound for proving equalities.
Lookups in constant tables are expanded to XOR form only after all 2^k entries have been checked to be affine.
"""
import z3

MASK = {}


class Norm:
    def __init__(self):
        self.atoms = {}  # key -> first bit index
        self.n = 1
        self.memo = {}
        self.keep = []
        self.names = {}
        self.decide = None
        self.alias = None  # optional callable(term)-> list of bits or None (rewrite of atoms)

    def atom(self, t, w):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = self.n
            self.names[self.n] = (t, w)
            self.n += w
            self.keep.append(t)
        b = self.atoms[k]
        return [1 << (b + i) for i in range(w)]

    def bits(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._bits(t)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def boolbit(self, c):
        """affine bit of a Bool term or None"""
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        if z3.is_not(c):
            b = self.boolbit(c.arg(0))
            return None if b is None else b ^ 1
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            x = self.bits(c.arg(0))
            y = self.bits(c.arg(1))
            d = [a ^ b for a, b in zip(x, y)]
            if any(v == 1 for v in d):
                return 0
            nz = [v for v in d if v != 0]
            if not nz:
                return 1
            if len(set(nz)) == 1:
                return nz[0] ^ 1
            return self.opaque(c)
        if z3.is_distinct(c) and c.num_args() == 2 and z3.is_bv(c.arg(0)):
            b = self.boolbit(c.arg(0) == c.arg(1))
            return None if b is None else b ^ 1
        if z3.is_app_of(c, z3.Z3_OP_XOR):
            r = 0
            for a in c.children():
                r ^= self.boolbit(a)
            return r
        if z3.is_eq(c) and z3.is_bool(c.arg(0)):
            return self.boolbit(c.arg(0)) ^ self.boolbit(c.arg(1)) ^ 1
        return self.opaque(c)

    def opaque(self, c):
        if self.decide is not None:
            r = self.decide(c)
            if r is not None:
                return 1 if r else 0
        return self.atom(c, 1)[0]

    def _bits(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [(v >> i) & 1 for i in range(w)]
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BXOR:
            r = [0] * w
            for c in ch:
                r = [a ^ b for a, b in zip(r, self.bits(c))]
            return r
        if k == z3.Z3_OP_BNOT:
            return [b ^ 1 for b in self.bits(ch[0])]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch):
                r = r + self.bits(c)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            b = self.bits(ch[0])
            return b + [0] * (w - len(b))
        if k == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + [b[-1]] * (w - len(b))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            b = self.bits(ch[0])
            if k == z3.Z3_OP_BSHL:
                return ([0] * min(s, w) + b)[:w]
            f = b[-1] if k == z3.Z3_OP_BASHR else 0
            return (b[s:] if s < w else []) + [f] * min(s, w)
        if k == z3.Z3_OP_BAND or k == z3.Z3_OP_BOR:
            cur = self.bits(ch[0])
            ok = True
            for c in ch[1:]:
                b = self.bits(c)
                nr = []
                for x, y in zip(cur, b):
                    if k == z3.Z3_OP_BAND:
                        if x == 0 or y == 0:
                            nr.append(0)
                        elif x == 1:
                            nr.append(y)
                        elif y == 1:
                            nr.append(x)
                        elif x == y:
                            nr.append(x)
                        else:
                            ok = False
                            break
                    else:
                        if x == 1 or y == 1:
                            nr.append(1)
                        elif x == 0:
                            nr.append(y)
                        elif y == 0:
                            nr.append(x)
                        elif x == y:
                            nr.append(x)
                        else:
                            ok = False
                            break
                if not ok:
                    break
                cur = nr
            if ok:
                return cur
            return self.atom(t, w)
        if k == z3.Z3_OP_BADD:
            # affine when no two operands have a non-zero bit in the same position (no carries)
            cur = [0] * w
            for c in ch:
                b = self.bits(c)
                for i in range(w):
                    if cur[i] != 0 and b[i] != 0:
                        return self.atom(t, w)
                cur = [x or y for x, y in zip(cur, b)]
            return cur
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(a):
                    v = a.as_long()
                    if v and v & (v - 1) == 0:
                        s = v.bit_length() - 1
                        return ([0] * s + self.bits(b))[:w]
                    # multiplication of a single bit by a constant
                    bb = self.bits(b)
                    if all(x == 0 for x in bb[1:]):
                        return [(bb[0] if (v >> i) & 1 else 0) for i in range(w)]
            return self.atom(t, w)
        if k == z3.Z3_OP_BNEG:
            b = self.bits(ch[0])
            if all(x == 0 for x in b[1:]):
                return [b[0]] * w
            return self.atom(t, w)
        if k == z3.Z3_OP_ITE:
            c = self.boolbit(ch[0])
            if c is None:
                return self.atom(t, w)
            A = self.bits(ch[1])
            B = self.bits(ch[2])
            if c == 1:
                return A
            if c == 0:
                return B
            r = []
            for a, b in zip(A, B):
                d = a ^ b
                if d == 0:
                    r.append(b)
                elif d == 1:
                    r.append(b ^ c)
                else:
                    return self.atom(t, w)
            return r
        if self.alias is not None:
            r = self.alias(self, t)
            if r is not None:
                return r
        return self.atom(t, w)


def table_read(eng, st, L, off, n):
    """n-byte read at symbolic offset of constant bytes L.data; XOR form when the reachable entries form an affine table"""
    N = getattr(eng, '_tabnorm', None)
    if N is None or N.n > 200000:
        N = eng._tabnorm = Norm()
    bits = N.bits(off)
    free = []
    for i, b in enumerate(bits):
        if b not in (0, 1):
            free.append(i)
    if len(free) > 12 or not free:
        return None
    # distinct free affine forms; positions may repeat the same form
    base = sum(1 << i for i, b in enumerate(bits) if b == 1)
    forms = {}
    for i in free:
        forms.setdefault(bits[i], []).append(i)
    # forms that are opaque atoms of the whole offset mean we learned nothing
    fl = list(forms.items())
    if len(fl) > 12:
        return None

    def entry(o):
        if o + n > L.size:
            return None
        b = L.data[o:o + n]
        return int.from_bytes(b + b'\0' * (n - len(b)), 'little')
    step = [sum(1 << p for p in ps) for _, ps in fl]
    allmax = base + sum(step)
    if allmax + n > L.size:
        return None
    t0 = entry(base)
    lin = [entry(base + s) ^ t0 for s in step]
    key = (id(L.data), base, tuple(step), n)
    cache = eng.__dict__.setdefault('_tabcache', {})
    ok = cache.get(key)
    if ok is None:
        ok = True
        vals = {0: 0}
        # gray-like enumeration of all subsets
        for m in range(1 << len(fl)):
            o = base
            x = t0
            for j in range(len(fl)):
                if m >> j & 1:
                    o += step[j]
                    x ^= lin[j]
            if entry(o) != x:
                ok = False
                break
        cache[key] = ok
    if not ok:
        return None
    w = 8 * n
    res = z3.BitVecVal(t0, w)
    parts = []
    for (form, ps), v in zip(fl, lin):
        p = ps[0]
        bit = z3.Extract(p, p, off)
        parts.append(z3.If(bit == z3.BitVecVal(1, 1), z3.BitVecVal(v, w), z3.BitVecVal(0, w)))
    for q in parts:
        res = res ^ q
    eng.assumptions.add('constant lookup tables replaced by their XOR-linear expansion after exhaustive check of all reachable entries')
    return z3.simplify(res, local_ctx=False) if len(parts) < 3 else res


def eliminate(rows, vec):
    """reduce vec by the affine rows (each row must equal 0). returns the residue"""
    piv = {}
    for r in rows:
        while r:
            h = r.bit_length() - 1
            if h in piv:
                r ^= piv[h]
            else:
                if h == 0:
                    return 0  # contradiction: 1 = 0, anything follows
                piv[h] = r
                break
    out = 0
    v = vec
    while v:
        h = v.bit_length() - 1
        if h in piv:
            v ^= piv[h]
        else:
            out |= 1 << h
            v ^= 1 << h
    return out
