"""CRC specification (bit-serial reference register) as ghost streams, the GF(2) hook, and the CRC loop-invariant templates."""
import re, itertools
import z3
import gf2
from engine import *


def step_bits(c, byte, w, poly, rev):
    """one byte through the bit-serial CRC register. c: list of w affine bits, byte: 8 affine bits"""
    c = list(c)
    if rev:
        for i in range(8):
            c[i] ^= byte[i]
        for _ in range(8):
            f = c[0]
            c = c[1:] + [0]
            for i in range(w):
                if poly >> i & 1:
                    c[i] ^= f
    else:
        for i in range(8):
            c[w - 8 + i] ^= byte[i]
        for _ in range(8):
            f = c[w - 1]
            c = [0] + c[:w - 1]
            for i in range(w):
                if poly >> i & 1:
                    c[i] ^= f
    return c


class Stream:
    """ghost: R(k) = reference CRC register after the first k bytes of the data, R(0)=init"""
    n = 0

    def __init__(self, w, poly, rev, obj, mem, off, init, size):
        Stream.n += 1
        self.fn = z3.Function('CRC_%d' % Stream.n, z3.BitVecSort(64), z3.BitVecSort(w))
        self.w, self.poly, self.rev = w, poly, rev
        self.obj, self.mem, self.off, self.init, self.size = obj, mem, off, init, size

    def at(self, idx):
        idx = simp(idx)
        if is_c(idx) and cval(idx) == 0:
            return self.init
        return self.fn(idx)

    def byte(self, e, st, idx):
        nl = st.nolog
        st.nolog = True
        try:
            return e.as_bv(e.rd_mem(st, self.mem, self.obj, add(self.off, idx), 1))
        finally:
            st.nolog = nl


def streams(st):
    return st.ghost.get('streams', ())


class Hook:
    """decides BV equalities over CRC streams by GF(2) elimination"""

    def __init__(self):
        self.last = None

    def __call__(self, e, st, goal):
        sts = streams(st)
        if not sts:
            return None
        fns = {s.fn.name(): s for s in sts}
        if not self.mentions(goal, fns) and not st.ghost.get('gf2_all'):
            # still useful when hypotheses tie loop registers to streams
            return None
        self.e, self.st = e, st
        self.classes = {}  # fn name -> list of (rep term, value)
        self.canon_cache = {}
        self.fns = fns
        self.Rmemo = {}
        N = gf2.Norm()
        N.alias = self.alias
        N.decide = lambda c: True if e.must(st, c) else False if e.must(st, z3.Not(c)) else None
        # register all stream indices first so that the least index of each class becomes the base
        self.minoff = {}
        hyps = []
        for t in st.pc:
            if z3.is_eq(t) and z3.is_bv(t.arg(0)) and self.mentions(t, fns):
                hyps.append(t)
        for t in hyps + [goal]:
            for app in self.apps(t, fns):
                self.locate(app.decl().name(), app.arg(0))
        for nm in fns:
            for ci, (rep, offs) in enumerate(self.classes.get(nm, ())):
                self.minoff[(nm, ci)] = min(offs)
        rows = []
        for h in hyps:
            a, b = N.bits(h.arg(0)), N.bits(h.arg(1))
            rows += [x ^ y for x, y in zip(a, b) if x != y]
        # affine equalities of plain symbols also help
        a, b = N.bits(goal.arg(0)), N.bits(goal.arg(1))
        res = [gf2.eliminate(rows, x ^ y) for x, y in zip(a, b)]
        self.last = (N, res)
        return all(r == 0 for r in res)

    def mentions(self, t, fns):
        for _ in self.apps(t, fns, True):
            return True
        return False

    def apps(self, t, fns, feed=False):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.decl().name() in fns:
                yield x
            if feed and z3.is_app(x) and x.decl().name().startswith('CRC_FEED_'):
                yield x
            stack.extend(x.children())

    def locate(self, nm, idx):
        """(class, constant offset) of an index term, modulo the path condition"""
        k = (nm, idx.get_id())
        r = self.canon_cache.get(k)
        if r is not None:
            return r[0]
        cl = self.classes.setdefault(nm, [(BV(0), [0])])
        for ci, (rep, offs) in enumerate(cl):
            d = cdiff(idx, rep)
            if d is None:
                # guess from a model, then prove
                if self.e.check(self.st) == z3.sat:
                    m = self.e._model
                    v = m.eval(idx - rep, model_completion=True)
                    if is_c(v):
                        dv = cval(v)
                        sd = dv - (1 << 64) if dv >= 1 << 63 else dv
                        if abs(sd) <= 4096 and self.e.must(self.st, idx - rep == v, 4000):
                            d = sd
            if d is not None and abs(d) <= 4096:
                offs.append(d)
                self.canon_cache[k] = ((ci, d), idx)
                return ci, d
        cl.append((idx, [0]))
        self.canon_cache[k] = ((len(cl) - 1, 0), idx)
        return len(cl) - 1, 0

    def alias(self, N, t):
        if z3.is_app(t) and t.decl().name().startswith('CRC_FEED_'):
            s = next(x for x in self.fns.values() if x.w == t.size() and x.rev)
            ch = t.children()
            c = N.bits(ch[-1])
            for wd in ch[:-1]:
                b = N.bits(wd)
                for j in range(8):
                    c = step_bits(c, b[8 * j:8 * j + 8], s.w, s.poly, s.rev)
            return c
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1):
            return None
        nm = t.decl().name()
        idx = t.arg(0)
        if nm in self.fns:
            s = self.fns[nm]
            ci, d = self.locate(nm, idx)
            return self.Rbits(N, nm, s, ci, d)
        if is_c(idx):
            return None
        # data byte: canonicalise the index
        ci, d = self.locate(nm, idx)
        rep = self.classes[nm][ci][0]
        key = ('byte', nm, ci, d)
        if key not in self.Rmemo:
            u = t.decl()(z3.simplify(rep + BV(d)))
            self.Rmemo[key] = N.atom(u, 8)
        return self.Rmemo[key]

    def Rbits(self, N, nm, s, ci, d):
        key = (nm, ci, d)
        if key in self.Rmemo:
            return self.Rmemo[key]
        rep = self.classes[nm][ci][0]
        at = simp(rep + BV(d))
        if is_c(at) and cval(at) <= 4096:
            # constant index: unfold to the initial value
            c = N.bits(s.init)
            for k in range(cval(at)):
                c = step_bits(c, N.bits(s.byte(self.e, self.st, BV(k))), s.w, s.poly, s.rev)
            self.Rmemo[key] = c
            return c
        base = self.minoff.get((nm, ci), d)
        if d <= base:
            r = N.atom(s.fn(simp(rep + BV(d))), s.w)
        else:
            r = self.Rbits(N, nm, s, ci, base)
            for k in range(base, d):
                r = step_bits(r, N.bits(s.byte(self.e, self.st, simp(rep + BV(k)))), s.w, s.poly, s.rev)
        self.Rmemo[key] = r
        return r


def FEED(n, w):
    """ghost function: the reference (reflected, poly taken from the name) register after feeding n 64-bit little-endian words.
    Its meaning is known to the GF(2) procedure only."""
    return z3.Function('CRC_FEED_%d' % n, *([z3.BitVecSort(64)] * n + [z3.BitVecSort(w), z3.BitVecSort(w)]))


def begin(e, st, fn, a, i):
    """__vc_crc_begin(buf, n, init(u64), width, poly, rev)"""
    p, n, init, w, poly, rev = a
    w = cval(w)
    init = simp(z3.Extract(w - 1, 0, init)) if w < 64 else init
    s = Stream(w, cval(poly), bool(cval(rev)), p.obj, st.mem[p.obj.id] if p.obj is not None else None, p.off, init, n)
    st.ghost['streams'] = streams(st) + (s,)
    return None


def assert_crc(e, st, fn, a, i):
    """__vc_crc_assert(result u64, stream number, n, label)"""
    r, k, n, lab = a
    s = streams(st)[cval(k)]
    v = simp(z3.Extract(s.w - 1, 0, r)) if s.w < 64 else r
    e.oblige(st, z3.simplify(v) == s.at(n), 'assert', e.cstr(e, st, lab), i.get('loc'))
    return None


def candidates(ctx):
    """loop registers equal the stream register at an index derived from the loop variables"""
    e = ctx.eng
    out = []
    sts = streams(ctx.est)
    if not sts:
        return out
    G = e.num
    idxs = []
    for k, v in ctx.entry.items():
        n = G(v)
        if n is None or n.size() not in (32, 64):
            continue
        incs = [x for x in ctx.incs.get(k, []) if x]
        if isinstance(v, Ptr):
            for si, s in enumerate(sts):
                if v.obj is s.obj:
                    idxs.append(('%s-buf' % e.keyname(k), lambda x, k=k, s=s: simp(x.vals[k].off - s.off) if isinstance(x.vals[k], Ptr) and x.vals[k].obj is s.obj else None))
        else:
            def z(t):
                return z3.ZeroExt(64 - t.size(), t) if t.size() < 64 else t
            idxs.append((e.keyname(k), lambda x, k=k: z(G(x.vals[k]))))
            for si, s in enumerate(sts):
                idxs.append(('n-%s' % e.keyname(k), lambda x, k=k, s=s: simp(s.size - z(G(x.vals[k])))))
                for m in (2, 4, 8, 16):
                    idxs.append(('%d*%s' % (m, e.keyname(k)), lambda x, k=k, m=m: simp(BV(m) * z(G(x.vals[k])))))
                    idxs.append(('n-%d*%s' % (m, e.keyname(k)), lambda x, k=k, m=m, s=s: simp(s.size - BV(m) * z(G(x.vals[k])))))
    words = [k for k, v in ctx.entry.items() if z3.is_expr(v) and z3.is_bv(v) and v.size() == 64]
    for si, s in enumerate(sts):
        for k, v in ctx.entry.items():
            if not (z3.is_expr(v) and z3.is_bv(v) and v.size() == s.w):
                continue
            for nm, f in idxs:
                def c(x, k=k, f=f, s=s):
                    ix = f(x)
                    if ix is None:
                        return None
                    return x.vals[k] == s.at(ix)
                out.append(('%s==CRC%d(%s)' % (e.keyname(k), si, nm), c))
        # look-ahead window of j 64-bit accumulator words: feeding them from 0 equals feeding zeros from R(i)
        if s.w == 32 and s.rev and len(words) >= 5:
            byobj = {}
            perms = []
            for k in words:
                if k[0] == 'cell':
                    byobj.setdefault(k[1], []).append(k)
            for o, ks in byobj.items():
                ks.sort(key=lambda q: q[2])
                for a in range(len(ks) - 4):
                    if all(ks[a + j + 1][2] == ks[a + j][2] + 8 for j in range(4)):
                        perms.append(tuple(ks[a:a + 5]))
            ph = [k for k in words if k[0] == 'phi']
            if not perms and 5 <= len(words) <= 7:
                perms = list(itertools.permutations(words, 5))
            elif 5 <= len(ph) <= 7:
                perms += list(itertools.permutations(ph, 5))
            for nm, f in idxs:
                for p in perms:
                    def c(x, p=p, f=f, s=s):
                        ix = f(x)
                        if ix is None:
                            return None
                        F = FEED(len(p), 32)
                        return F(*([x.vals[k] for k in p] + [BV(0, 32)])) == F(*([BV(0, 64)] * len(p) + [s.at(ix)]))
                    out.append(('window(%s)~CRC%d(%s)' % (','.join(e.keyname(k) for k in p), si, nm), c))
    return out


def block_contract(w, poly, rev):
    """contract of CalculateBlockCrc: result is the reference register after n bytes"""
    def h(e, st, fn, a, i):
        p, n, init = a[0], a[1], a[2]
        n64 = simp(z3.ZeroExt(64 - n.size(), n)) if n.size() < 64 else n
        if p.obj is None:
            e.oblige(st, n64 == 0, 'null-read', 'crc', i.get('loc'))
            return init
        if not e.access(st, p, n64, 'read', i.get('loc')):
            return 'stop'
        for s in streams(st):
            # the register of a stream that is already known, if this call continues it: R'(k) = R(d+k) by induction on k,
            # as both start from R(d) and read the same bytes
            if s.w == w and s.poly == poly and s.rev == rev and s.obj is p.obj and s.mem is st.mem[p.obj.id]:
                d = simp(p.off - s.off)
                start = s.at(d)
                if start.eq(init) or e.must(st, init == start) or e.hooks_affine(e, st, init == start):
                    return s.at(simp(d + n64))
        s = Stream(w, poly, rev, p.obj, st.mem[p.obj.id], p.off, init, n64)
        st.ghost['streams'] = streams(st) + (s,)
        # small range of lengths: case split so that the register can be unfolded completely
        if not is_c(n64) and e.must(st, z3.ULE(n64, BV(64))):
            out = []
            for k in range(65):
                t = st.copy()
                e.assume(t, n64 == BV(k))
                if e.check(t) == z3.unsat:
                    continue
                out.append((t, s.at(BV(k))))
            return ('fork', out)
        return s.at(n64)
    return h


def install(e):
    e.contracts.append((re.compile(r'^__vc_crc_begin$'), begin))
    e.contracts.append((re.compile(r'^__vc_crc_assert$'), assert_crc))
    e.cand_gens.append(candidates)
    e.hooks_affine = Hook()
    memo = {}

    def flt(t):
        """hypotheses about CRC streams are only used by the GF(2) procedure (dropping a hypothesis is sound)"""
        k = t.get_id()
        r = memo.get(k)
        if r is None:
            ok = True
            seen = set()
            stack = [t]
            while stack and ok:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('CRC_'):
                    ok = False
                stack.extend(x.children())
            memo[k] = r = (ok, t)
        return r[0]
    e.pc_filter = flt
