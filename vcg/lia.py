"""Back end: bit-vector goals as linear integer arithmetic.

Every bit-vector term of width w is translated to an integer term in [0, 2^w); sums carry an explicit wrap quotient whose bounds come
from interval analysis.  Operators without an exact linear translation become fresh integers in range (over-approximation), so only
'unsat' answers are used.
"""
import z3

K = z3


class LIA:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.side = []
        self.n = 0
        self.ub = {}
        self.rng = {}
        self.fns = {}
        self.keep = []
        self.exact = True

    def fresh(self, lo, hi, nm='q'):
        self.n += 1
        v = z3.Int('%s!lia%d' % (nm, self.n))
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    # ---- bounds harvested from the assertions
    def harvest(self, cs):
        for _ in range(3):
            ch = False
            for c in cs:
                ch |= self.harv(c)
            if not ch:
                break
            self.rng = {}

    def harv(self, c, pos=True):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.harv(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            r = False
            for x in c.children():
                r |= self.harv(x, pos)
            return r
        if k == z3.Z3_OP_ULEQ:
            a, b = c.arg(0), c.arg(1)
            if pos:
                return self.setub(a, self.hi(b))
            return self.setub(b, self.hi(a) - 1)  # b < a
        if k == z3.Z3_OP_ULT:
            a, b = c.arg(0), c.arg(1)
            if pos:
                return self.setub(a, self.hi(b) - 1)
            return self.setub(b, self.hi(a))
        if k == z3.Z3_OP_EQ and pos and z3.is_bv(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            # Extract(w-1,k,x)==0 -> x < 2^k
            for x, y in ((a, b), (b, a)):
                if z3.is_bv_value(y) and y.as_long() == 0 and x.decl().kind() == z3.Z3_OP_EXTRACT:
                    hi, lo = x.params()
                    if hi == x.arg(0).size() - 1:
                        return self.setub(x.arg(0), (1 << lo) - 1)
            return self.setub(a, self.hi(b)) | self.setub(b, self.hi(a))
        return False

    def setub(self, t, v):
        if z3.is_bv_value(t) or v < 0:
            return False
        o = self.ub.get(t.get_id())
        if o is None or v < o:
            if v < (1 << t.size()) - 1:
                self.ub[t.get_id()] = v
                self.keep.append(t)
                return True
        return False

    def hi(self, t):
        return self.range(t)[1]

    def range(self, t):
        r = self.rng.get(t.get_id())
        if r is not None:
            return r
        w = t.size()
        top = (1 << w) - 1
        k = t.decl().kind()
        lo, hi = 0, top
        if z3.is_bv_value(t):
            lo = hi = t.as_long()
        elif k == z3.Z3_OP_BADD or k == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
            c0, terms = self.linear(t)
            l = h = c0
            for c, x in terms:
                a, b = self.range(x)
                l += c * (a if c > 0 else b)
                h += c * (b if c > 0 else a)
            if l >= 0 and h <= top:
                lo, hi = l, h
        elif k == z3.Z3_OP_ITE:
            a, b = self.range(t.arg(1)), self.range(t.arg(2))
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
        elif k == z3.Z3_OP_ZERO_EXT:
            lo, hi = self.range(t.arg(0))
        elif k == z3.Z3_OP_CONCAT:
            lo = hi = 0
            for x in t.children():
                a, b = self.range(x)
                lo = (lo << x.size()) + a
                hi = (hi << x.size()) + b
        elif k == z3.Z3_OP_EXTRACT:
            h_, l_ = t.params()
            a, b = self.range(t.arg(0))
            if b < (1 << (h_ + 1)):
                lo, hi = a >> l_, b >> l_
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            a, b = self.range(t.arg(0))
            lo, hi = a >> t.arg(1).as_long(), b >> t.arg(1).as_long()
        elif k == z3.Z3_OP_BAND:
            hi = min(self.range(x)[1] for x in t.children())
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            a, b = self.range(t.arg(0))
            d = t.arg(1).as_long()
            lo, hi = a // d, b // d
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            lo, hi = 0, min(t.arg(1).as_long() - 1, self.range(t.arg(0))[1])
        u = self.ub.get(t.get_id())
        if u is not None and u < hi:
            hi = max(u, 0)
            if lo > hi:
                lo = hi
        self.rng[t.get_id()] = (lo, hi)
        self.keep.append(t)
        return lo, hi

    def linear(self, t):
        """t as c0 + sum c_i x_i (mod 2^w) with signed-centred coefficients"""
        w = t.size()
        m = 1 << w
        acc = {}
        c0 = 0

        def go(t, c):
            nonlocal c0
            k = t.decl().kind()
            if z3.is_bv_value(t):
                c0 = (c0 + c * t.as_long()) % m
            elif k == z3.Z3_OP_BADD:
                for x in t.children():
                    go(x, c)
            elif k == z3.Z3_OP_BSUB:
                go(t.arg(0), c)
                go(t.arg(1), -c)
            elif k == z3.Z3_OP_BNEG:
                go(t.arg(0), -c)
            elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                go(t.arg(1), c * t.arg(0).as_long())
            elif k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
                go(t.arg(0), c << t.arg(1).as_long())
            else:
                o = acc.get(t.get_id(), (0, t))
                acc[t.get_id()] = ((o[0] + c) % m, t)
        go(t, 1)

        def cen(c):
            return c - m if c >= m // 2 else c
        return cen(c0), [(cen(c), x) for c, x in acc.values() if c % m]

    def tr(self, t):
        r = self.memo.get(t.get_id())
        if r is not None:
            return r
        r = self.tr_(t)
        self.memo[t.get_id()] = r
        self.keep.append(t)
        return r

    def abstract(self, t):
        lo, hi = self.range(t)
        if t.num_args() > 0:
            self.exact = False
        return self.fresh(lo, hi, 'abs')

    def tr_(self, t):
        w = t.size()
        m = 1 << w
        k = t.decl().kind()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long())
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BSHL):
            c0, terms = self.linear(t)
            if len(terms) == 1 and terms[0][1].eq(t):
                return self.abstract(t)
            l = h = c0
            e = z3.IntVal(c0)
            for c, x in terms:
                a, b = self.range(x)
                l += c * (a if c > 0 else b)
                h += c * (b if c > 0 else a)
                e = e + c * self.tr(x)
            ql, qh = l // m, h // m
            if ql == qh:
                return e - ql * m if ql else e
            q = self.fresh(ql, qh)
            lo, hi = self.range(t)
            r = self.fresh(lo, hi, 's')
            self.side.append(r == e - m * q)
            return r
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(t.arg(0)), self.tr(t.arg(1)), self.tr(t.arg(2)))
        if k == z3.Z3_OP_ZERO_EXT:
            return self.tr(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            x = t.arg(0)
            a, b = self.range(x)
            h = 1 << (x.size() - 1)
            if b < h:
                return self.tr(x)
            v = self.tr(x)
            return z3.If(v >= h, v + (m - (1 << x.size())), v)
        if k == z3.Z3_OP_CONCAT:
            r = z3.IntVal(0)
            for x in t.children():
                r = r * (1 << x.size()) + self.tr(x)
            return r
        if k == z3.Z3_OP_EXTRACT:
            h_, l_ = t.params()
            x = t.arg(0)
            v = self.tr(x)
            a, b = self.range(x)
            if l_:
                v = self.divc(v, 1 << l_, a, b)
                a, b = a >> l_, b >> l_
            if b >= m:
                q = self.fresh(a // m, b // m)
                r = self.fresh(0, m - 1)
                self.side.append(v == q * m + r)
                return r
            return v
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            a, b = self.range(t.arg(0))
            return self.divc(self.tr(t.arg(0)), 1 << t.arg(1).as_long(), a, b)
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
            a, b = self.range(t.arg(0))
            s = t.arg(1).as_long()
            if b < m // 2:
                return self.divc(self.tr(t.arg(0)), 1 << s, a, b)
            v = self.tr(t.arg(0))
            d = self.divc(v, 1 << s, a, b)
            return z3.If(v >= m // 2, d + (m - (m >> s)), d)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            a, b = self.range(t.arg(0))
            return self.divc(self.tr(t.arg(0)), t.arg(1).as_long(), a, b)
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            d = t.arg(1).as_long()
            v = self.tr(t.arg(0))
            a, b = self.range(t.arg(0))
            if b < d:
                return v
            return v - d * self.divc(v, d, a, b)
        if k == z3.Z3_OP_BNOT:
            return (m - 1) - self.tr(t.arg(0))
        if k == z3.Z3_OP_BAND and t.num_args() == 2:
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if z3.is_bv_value(x):
                    c = x.as_long()
                    if c & (c + 1) == 0:
                        d = c + 1
                        v = self.tr(y)
                        a, b = self.range(y)
                        return v - d * self.divc(v, d, a, b)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and all(z3.is_bv(x) for x in t.children()):
            n = t.decl().name()
            f = self.fns.get(n)
            if f is None:
                f = self.fns[n] = z3.Function(n + '!int', *([z3.IntSort()] * (t.num_args() + 1)))
            v = f(*[self.tr(x) for x in t.children()])
            lo, hi = self.range(t)
            self.side.append(v >= lo)
            self.side.append(v <= hi)
            return v
        return self.abstract(t)

    def divc(self, v, d, a, b):
        if d == 1:
            return v
        if a // d == b // d:
            return z3.IntVal(a // d)
        q = self.fresh(a // d, b // d)
        self.side.append(v - d * q >= 0)
        self.side.append(v - d * q <= d - 1)
        return q

    def b(self, c):
        r = self.bmemo.get(c.get_id())
        if r is None:
            r = self.b_(c)
            self.bmemo[c.get_id()] = r
            self.keep.append(c)
        return r

    def signed(self, t):
        v = self.tr(t)
        m = 1 << t.size()
        if self.range(t)[1] < m // 2:
            return v
        return z3.If(v >= m // 2, v - m, v)

    def b_(self, c):
        k = c.decl().kind()
        if z3.is_true(c) or z3.is_false(c):
            return c
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(c.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(x) for x in c.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(x) for x in c.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(c.arg(0)), self.b(c.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(c.arg(0)), self.b(c.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(c.arg(0)), self.b(c.arg(1)), self.b(c.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2:
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv(a):
                r = self.tr(a) == self.tr(b)
                return r if k == z3.Z3_OP_EQ else z3.Not(r)
            if z3.is_bool(a):
                r = self.b(a) == self.b(b)
                return r if k == z3.Z3_OP_EQ else z3.Not(r)
        cmpu = {z3.Z3_OP_ULEQ: lambda x, y: x <= y, z3.Z3_OP_ULT: lambda x, y: x < y, z3.Z3_OP_UGEQ: lambda x, y: x >= y,
                z3.Z3_OP_UGT: lambda x, y: x > y}
        cmps = {z3.Z3_OP_SLEQ: lambda x, y: x <= y, z3.Z3_OP_SLT: lambda x, y: x < y, z3.Z3_OP_SGEQ: lambda x, y: x >= y,
                z3.Z3_OP_SGT: lambda x, y: x > y}
        if k in cmpu:
            return cmpu[k](self.tr(c.arg(0)), self.tr(c.arg(1)))
        if k in cmps:
            return cmps[k](self.signed(c.arg(0)), self.signed(c.arg(1)))
        self.n += 1
        if c.num_args() == 0:
            return c
        self.exact = False
        return z3.Bool('absb!lia%d' % self.n)


def solve(cs, ms):
    """'unsat' (sound), 'sat' (only when the translation was exact), 'unknown'"""
    L = LIA()
    L.harvest(cs)
    out = [L.b(c) for c in cs]
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(*out)
    s.add(*L.side)
    r = s.check()
    if r == z3.unsat:
        return 'unsat'
    if r == z3.sat and L.exact:
        return 'sat'
    return 'unknown'
