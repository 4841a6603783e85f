"""Contracts for compiler intrinsics, libc and the verification primitives (__vc_*). These are the trusted/assumed contracts."""
import re
import z3
from engine import *


def R(p):
    return re.compile(p)


def install(E):
    C = E.contracts

    def reg(p):
        def d(f):
            C.append((R(p), f))
            return f
        return d

    # ---------------- intrinsics
    @reg(r'^llvm\.(lifetime\.end|dbg\.|experimental\.noalias|invariant|donothing|prefetch|stackrestore|va_end|va_copy)')
    def _nop(e, st, fn, a, i):
        return None

    @reg(r'^llvm\.stacksave')
    def _ss(e, st, fn, a, i):
        return NULL

    @reg(r'^llvm\.lifetime\.start')
    def _ls(e, st, fn, a, i):
        p = a[1]
        if isinstance(p, Ptr) and p.obj is not None and p.obj.id in st.mem:
            st.mem[p.obj.id] = Mem({}, Base(e.freshname('uninit_' + p.obj.name), p.obj.size))
        return None

    @reg(r'^llvm\.assume')
    def _as(e, st, fn, a, i):
        e.oblige(st, a[0], 'llvm-assume', '', i.get('loc'))
        return None

    @reg(r'^llvm\.expect')
    def _ex(e, st, fn, a, i):
        return a[0]

    @reg(r'^llvm\.is\.constant')
    def _ic(e, st, fn, a, i):
        return z3.BoolVal(False)

    @reg(r'^llvm\.objectsize')
    def _os(e, st, fn, a, i):
        return BV(-1, i['ty'][1])

    @reg(r'^llvm\.trap')
    def _tr(e, st, fn, a, i):
        e.oblige(st, z3.BoolVal(False), 'trap', '', i.get('loc'))
        return 'stop'

    @reg(r'^llvm\.(umin|umax|smin|smax)\.')
    def _mm(e, st, fn, a, i):
        k = fn.name.split('.')[1]
        x, y = a
        c = {'umin': z3.ULE(x, y), 'umax': z3.UGE(x, y), 'smin': x <= y, 'smax': x >= y}[k]
        return simp(z3.If(c, x, y))

    @reg(r'^llvm\.abs\.')
    def _abs(e, st, fn, a, i):
        x = a[0]
        return simp(z3.If(x < 0, -x, x))

    @reg(r'^llvm\.fabs\.')
    def _fabs(e, st, fn, a, i):
        return z3.fpAbs(a[0])

    @reg(r'^(fabs|fabsf)$')
    def _fabs2(e, st, fn, a, i):
        return z3.fpAbs(a[0])

    @reg(r'^llvm\.fmuladd\.')
    def _fma(e, st, fn, a, i):
        return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2])

    @reg(r'^(llvm\.(floor|trunc|ceil|rint|nearbyint)\.|(floor|trunc|ceil)f?$)')
    def _flo(e, st, fn, a, i):
        nm = fn.name
        rm = z3.RTN() if 'floor' in nm else z3.RTZ() if 'trunc' in nm else z3.RTP() if 'ceil' in nm else z3.RNE()
        return z3.fpRoundToIntegral(rm, a[0])

    @reg(r'^(llvm\.round\.|round$|roundf$)')
    def _rnd(e, st, fn, a, i):
        return z3.fpRoundToIntegral(z3.RNA(), a[0])

    @reg(r'^llvm\.ctpop\.')
    def _pop(e, st, fn, a, i):
        x = a[0]
        w = x.size()
        r = BV(0, w)
        for k in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
        return simp(r)

    @reg(r'^llvm\.cttz\.')
    def _ctz(e, st, fn, a, i):
        x = a[0]
        w = x.size()
        r = BV(w, w)
        for k in reversed(range(w)):
            r = z3.If(z3.Extract(k, k, x) == BV(1, 1), BV(k, w), r)
        if z3.is_true(a[1]):
            e.oblige(st, x != 0, 'cttz-nonzero', '', i.get('loc'))
        return simp(r)

    @reg(r'^llvm\.ctlz\.')
    def _clz(e, st, fn, a, i):
        x = a[0]
        w = x.size()
        r = BV(w, w)
        for k in range(w):
            r = z3.If(z3.Extract(k, k, x) == BV(1, 1), BV(w - 1 - k, w), r)
        if z3.is_true(a[1]):
            e.oblige(st, x != 0, 'ctlz-nonzero', '', i.get('loc'))
        return simp(r)

    @reg(r'^llvm\.bswap\.')
    def _bsw(e, st, fn, a, i):
        x = a[0]
        n = x.size() // 8
        return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(n)]))

    @reg(r'^llvm\.fsh[lr]\.')
    def _fsh(e, st, fn, a, i):
        x, y, s = a
        w = x.size()
        s = simp(z3.URem(s, BV(w, w)))
        c = z3.Concat(x, y)
        sh = z3.ZeroExt(w, s)
        if 'fshl' in fn.name:
            return simp(z3.Extract(2 * w - 1, w, c << sh))
        return simp(z3.Extract(w - 1, 0, z3.LShR(c, sh)))

    @reg(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow')
    def _wo(e, st, fn, a, i):
        m = re.match(r'llvm\.(u|s)(add|sub|mul)', fn.name)
        x, y = a
        s = m.group(1) == 's'
        if m.group(2) == 'add':
            ok = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y)) if s else z3.BVAddNoOverflow(x, y, False)
            v = x + y
        elif m.group(2) == 'sub':
            ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if s else z3.UGE(x, y)
            v = x - y
        else:
            ok = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y)) if s else z3.BVMulNoOverflow(x, y, False)
            v = x * y
        ok = simp(ok)
        if not z3.is_true(ok) and not z3.is_false(ok) and e.must(st, ok):
            ok = z3.BoolVal(True)
        return [simp(v), simp(z3.Not(ok))]

    @reg(r'^llvm\.usub\.sat')
    def _uss(e, st, fn, a, i):
        return simp(z3.If(z3.UGE(a[0], a[1]), a[0] - a[1], BV(0, a[0].size())))

    @reg(r'^llvm\.eh\.typeid\.for')
    def _tid(e, st, fn, a, i):
        return e.typeid(a[0].obj.name if isinstance(a[0], Ptr) and a[0].obj else '?')

    # ---------------- memory
    def do_copy(e, st, a, i, overlap_ok):
        d, s, n = a[0], a[1], a[2]
        if n.size() < 64:
            n = simp(z3.ZeroExt(64 - n.size(), n))
        loc = i.get('loc')
        if is_c(n) and cval(n) == 0:
            return 'ret'
        if (d.obj is None or s.obj is None) and e.must(st, n == 0):
            return 'ret'
        if not e.access(st, s, n, 'read', loc):
            return 'stop'
        if not e.access(st, d, n, 'write', loc, True):
            return 'stop'
        if not overlap_ok and d.obj is s.obj:
            e.oblige(st, z3.Or(d.off == s.off, n == 0, z3.And(z3.UGE(d.off, s.off), z3.UGE(d.off - s.off, n)),
                               z3.And(z3.UGE(s.off, d.off), z3.UGE(s.off - d.off, n))), 'memcpy-no-overlap', '', loc)
        e.mcopy(st, d.obj, d.off, s.obj, s.off, n)
        return 'ret'

    @reg(r'^(llvm\.memcpy\.|memcpy$|__memcpy_chk$)')
    def _mc(e, st, fn, a, i):
        r = do_copy(e, st, a, i, False)
        return 'stop' if r == 'stop' else a[0]

    @reg(r'^(llvm\.memmove\.|memmove$)')
    def _mm2(e, st, fn, a, i):
        r = do_copy(e, st, a, i, True)
        return 'stop' if r == 'stop' else a[0]

    @reg(r'^(llvm\.memset\.|memset$)')
    def _ms(e, st, fn, a, i):
        d, v, n = a[0], a[1], a[2]
        if n.size() < 64:
            n = simp(z3.ZeroExt(64 - n.size(), n))
        if v.size() > 8:
            v = simp(z3.Extract(7, 0, v))
        if is_c(n) and cval(n) == 0:
            return a[0]
        if d.obj is None and e.must(st, n == 0):
            return a[0]
        if not e.access(st, d, n, 'write', i.get('loc'), True):
            return 'stop'
        e.mset(st, d.obj, d.off, v, n)
        return a[0]

    @reg(r'^memchr$')
    def _mchr(e, st, fn, a, i):
        p, c, n = a
        loc = i.get('loc')
        cb = simp(z3.Extract(7, 0, c))
        if p.obj is None:
            if e.must(st, n == 0):
                return NULL
            e.oblige(st, n == 0, 'null-read', 'memchr', loc)
            return 'stop'
        # C requires memchr to behave as if it reads sequentially; the whole range must be valid for this contract
        if not e.access(st, p, n, 'read', loc):
            return 'stop'
        o = p.obj
        mem = st.mem[o.id]
        out = []
        # not found
        s1 = st.copy()

        def nofact(s, off, lo=p.off, ln=n):
            b = e.as_bv(e.rd_mem(s, mem, o, off, 1))
            return z3.Implies(z3.ULT(off - lo, ln), b != cb)
        e.add_fact(s1, o, nofact)
        if e.check(s1) != z3.unsat:
            out.append((s1, NULL))
        s2 = st.copy()
        r = e.fresh(64, 'memchr')
        e.assume(s2, z3.ULT(r - p.off, n))
        e.assume(s2, z3.ULT(r, o.size))  # implied by the bounds obligation above
        e.assume(s2, z3.UGE(r, p.off))
        b = e.as_bv(e.mread(s2, o, r, 1))
        e.assume(s2, b == cb)

        def fact(s, off, lo=p.off, r=r):
            b = e.as_bv(e.rd_mem(s, mem, o, off, 1))
            return z3.Implies(z3.ULT(off - lo, r - lo), b != cb)
        e.add_fact(s2, o, fact)
        if e.check(s2) != z3.unsat:
            out.append((s2, Ptr(o, r)))
        return ('fork', out)

    @reg(r'^(memcmp|bcmp)$')
    def _mcmp(e, st, fn, a, i):
        p, q, n = a
        loc = i.get('loc')
        if is_c(n) and cval(n) == 0:
            return BV(0, 32)
        if not e.access(st, p, n, 'read', loc) or not e.access(st, q, n, 'read', loc):
            return 'stop'
        # bounded n: enumerate bytes; unbounded: universal facts
        hi = None
        if is_c(n):
            hi = cval(n)
        else:
            for k in (1, 2, 3, 4, 8, 16, 32):
                if e.must(st, z3.ULE(n, BV(k))):
                    hi = k
                    break
        if hi is not None and hi <= 64:
            eqs = []
            for k in range(hi):
                # guarded read: outside the range the byte is irrelevant
                x = e.as_bv(e.rd_mem(st, st.mem[p.obj.id], p.obj, add(p.off, BV(k)), 1))
                y = e.as_bv(e.rd_mem(st, st.mem[q.obj.id], q.obj, add(q.off, BV(k)), 1))
                e.log_read(st, p.obj, add(p.off, BV(k)))
                eqs.append(z3.Implies(z3.UGT(n, BV(k)), x == y))
            r = e.fresh(32, 'memcmp')
            e.assume(st, (r == 0) == z3.And(*eqs))
            return r
        r = e.fresh(32, 'memcmp')
        mp, mq = st.mem[p.obj.id], st.mem[q.obj.id]
        po, qo = p, q
        s1 = st.copy()
        e.assume(s1, r == 0)

        def fact(s, off):
            k = off - po.off
            x = e.as_bv(e.rd_mem(s, mp, po.obj, off, 1))
            y = e.as_bv(e.rd_mem(s, mq, qo.obj, simp(qo.off + k), 1))
            return z3.Implies(z3.ULT(k, n), x == y)
        e.add_fact(s1, po.obj, fact)
        s2 = st
        e.assume(s2, r != 0)
        d = e.fresh(64, 'mismatch')
        e.assume(s2, z3.ULT(d, n))
        x = e.as_bv(e.rd_mem(s2, mp, po.obj, simp(po.off + d), 1))
        y = e.as_bv(e.rd_mem(s2, mq, qo.obj, simp(qo.off + d), 1))
        e.assume(s2, x != y)
        return ('fork', [(s, r) for s in (s1, s2) if e.check(s) != z3.unsat])

    @reg(r'^(_Znwm|_Znam|malloc)$')
    def _new(e, st, fn, a, i):
        n = a[0]
        e.assumptions.add('heap allocation succeeds')
        o = e.new_obj(st, 'heap', n, 'heap')
        e._addr[o.addr.decl().name()] = o
        e.assume(st, z3.ULE(n, BV(1 << 62)))
        return Ptr(o, BV(0))

    @reg(r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::_M_create\(unsigned long&, unsigned long\)')
    def _str_create(e, st, fn, a, i):
        # libstdc++: storage for at least the requested capacity (which a growing string may round up) plus the terminator
        cap = e.as_bv(e.mread(st, a[1].obj, a[1].off, 8))
        old = a[2]
        e.assume(st, z3.ULE(cap, BV(1 << 62)))  # else length_error: nothing is allocated
        cap = simp(z3.If(z3.And(z3.UGT(cap, old), z3.ULT(cap, 2 * old)), 2 * old, cap))
        e.mwrite(st, a[1].obj, a[1].off, 8, cap)
        e.assumptions.add('heap allocation succeeds')
        o = e.new_obj(st, 'string', simp(cap + 1), 'heap')
        e._addr[o.addr.decl().name()] = o
        return Ptr(o, BV(0))

    @reg(r'^(_ZdlPv|_ZdlPvm|_ZdaPv|_ZdaPvm|free)$')
    def _del(e, st, fn, a, i):
        p = a[0]
        if p.obj is None:
            return None
        loc = i.get('loc')
        if p.obj.id in st.dead:
            e.oblige(st, z3.BoolVal(False), 'double-free', p.obj.name, loc)
            return 'stop'
        if p.obj.kind != 'heap':
            e.oblige(st, z3.BoolVal(False), 'free-of-non-heap', p.obj.name, loc)
            return 'stop'
        e.oblige(st, p.off == 0, 'free-base-pointer', '', loc)
        st.dead = st.dead | {p.obj.id}
        return None

    @reg(r'^strlen$')
    def _strlen(e, st, fn, a, i):
        p = a[0]
        if p.obj is None:
            e.oblige(st, z3.BoolVal(False), 'null-read', 'strlen', i.get('loc'))
            return 'stop'
        m = st.mem[p.obj.id]
        if isinstance(m.tail, ConstBytes) and not m.cells and is_c(p.off):
            d = m.tail.data[cval(p.off):]
            k = d.find(b'\0')
            if k < 0:
                k = len(d)
            return BV(k)
        r = e.fresh(64, 'strlen')
        o = p.obj
        # precondition: terminated inside the object (ghost fact supplied by the driver)
        z = st.ghost.get('nul@%d' % o.id)
        e.oblige(st, z3.BoolVal(z is not None), 'nul-terminated', o.name, i.get('loc'))
        e.assume(st, z3.ULT(r, o.size - p.off))
        b = e.as_bv(e.mread(st, o, simp(p.off + r), 1))
        e.assume(st, b == 0)

        def fact(s, off, lo=p.off, r=r, m=m):
            b = e.as_bv(e.rd_mem(s, m, o, off, 1))
            return z3.Implies(z3.ULT(off - lo, r), b != 0)
        e.add_fact(st, o, fact)
        return r

    # ---------------- C++ runtime
    @reg(r'^(__cxa_atexit|__cxa_guard_release|__cxa_guard_abort|__cxa_free_exception|__cxa_end_catch|__cxa_call_unexpected)$')
    def _nop2(e, st, fn, a, i):
        return BV(0, 32) if i['ty'][0] == 'i' else None

    @reg(r'^__cxa_guard_acquire$')
    def _ga(e, st, fn, a, i):
        return e.fresh(32, 'guard')

    @reg(r'^__cxa_begin_catch$')
    def _bc(e, st, fn, a, i):
        return Ptr(Obj('caught', BV(0), 'undef'), BV(0))

    @reg(r'^std::(exception|runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|bad_alloc|overflow_error|range_error)::(~)?\w+\(')
    def _exct(e, st, fn, a, i):
        return None

    @reg(r'^__cxa_allocate_exception$')
    def _ae(e, st, fn, a, i):
        o = e.new_obj(st, 'exc', a[0], 'heap')
        return Ptr(o, BV(0))

    @reg(r'^__cxa_throw$')
    def _thr(e, st, fn, a, i):
        t = a[1].obj.name if isinstance(a[1], Ptr) and a[1].obj else '?'
        e.throw(st, t, a[0], i.get('loc'))
        return 'moved'

    @reg(r'^(std::__throw_|__cxa_rethrow|std::terminate|__clang_call_terminate|abort$|__cxa_bad|__cxa_pure_virtual|_ZSt\d+__throw)')
    def _stdthrow(e, st, fn, a, i):
        nm = fn.dem.split('(')[0]
        if 'terminate' in nm or nm in ('abort', '__cxa_pure_virtual'):
            e.oblige(st, z3.BoolVal(False), 'no-terminate', nm, i.get('loc'))
            return 'stop'
        e.throw(st, nm, None, i.get('loc'))
        return 'moved'

    @reg(r'^__assert_fail$')
    def _asf(e, st, fn, a, i):
        e.oblige(st, z3.BoolVal(False), 'assert', '', i.get('loc'))
        return 'stop'

    # ---------------- ctype
    def cls(f):
        def h(e, st, fn, a, i):
            c = a[0]
            r = e.fresh(32, 'ctype')
            e.assume(st, (r != 0) == f(c))
            return r
        return h
    C.append((R(r'^isdigit$'), cls(lambda c: z3.And(c >= 48, c <= 57))))
    C.append((R(r'^isalpha$'), cls(lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))))  # "C" locale
    C.append((R(r'^isxdigit$'), cls(lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)))))
    C.append((R(r'^isspace$'), cls(lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13)))))

    # ---------------- verification primitives
    def cstr(e, st, p):
        m = st.mem.get(p.obj.id) or e.gmem.get(p.obj.id)
        d = m.tail.data[cval(p.off):]
        k = d.find(b'\0')
        return (d if k < 0 else d[:k]).decode('latin1')
    E.cstr = cstr

    def log_in(st, kind, name, v, base=None):
        """driver inputs, in the order they are drawn (turned into a replay file when a countermodel exists)"""
        st.ghost['inputs'] = st.ghost.get('inputs', ()) + ((kind, name, v, base),)

    def nd(w):
        def h(e, st, fn, a, i):
            nm = cstr(e, st, a[0])
            v = z3.BitVec('in_%s' % e.freshname(nm), w)
            log_in(st, 'u%d' % w, nm, v)
            return v
        return h
    for w in (8, 16, 32, 64):
        C.append((R(r'^__vc_u%d$' % w), nd(w)))

    @reg(r'^__vc_bool$')
    def _vb(e, st, fn, a, i):
        e.fresh_n += 1
        v = z3.Bool('in_%s!%d' % (cstr(e, st, a[0]), e.fresh_n))
        log_in(st, 'bool', cstr(e, st, a[0]), v)
        return v

    @reg(r'^__vc_f64$')
    def _vf(e, st, fn, a, i):
        v = z3.FP('in_%s' % e.freshname(cstr(e, st, a[0])), z3.Float64())
        log_in(st, 'f64', cstr(e, st, a[0]), v)
        return v

    @reg(r'^__vc_f32$')
    def _vf32(e, st, fn, a, i):
        v = z3.FP('in_%s' % e.freshname(cstr(e, st, a[0])), z3.Float32())
        log_in(st, 'f32', cstr(e, st, a[0]), v)
        return v

    @reg(r'^__vc_obj$')
    def _vo(e, st, fn, a, i):
        o = e.new_obj(st, cstr(e, st, a[1]), a[0], 'heap')
        e._addr[o.addr.decl().name()] = o
        e.assume(st, z3.ULE(a[0], BV(1 << 62)))
        st.ghost.setdefault('objs', ())
        st.ghost['objs'] = st.ghost['objs'] + ((cstr(e, st, a[1]), o),)
        log_in(st, 'obj', cstr(e, st, a[1]), a[0], st.mem[o.id].tail)
        return Ptr(o, BV(0))

    @reg(r'^__vc_assume$')
    def _va(e, st, fn, a, i):
        e.assume(st, a[0])
        if e.check(st) == z3.unsat:
            return 'stop'
        return None

    @reg(r'^__vc_same_f(64|32)$')
    def _same(e, st, fn, a, i):
        e.oblige(st, a[0] == a[1], 'assert', cstr(e, st, a[2]), i.get('loc'))
        return None

    @reg(r'^__vc_assert$')
    def _vas(e, st, fn, a, i):
        e.oblige(st, a[0], 'assert', cstr(e, st, a[1]), i.get('loc'))
        return None

    @reg(r'^__vc_cover$')
    def _vc(e, st, fn, a, i):
        nm = e.cur_entry + ':' + cstr(e, st, a[0])
        if e.record and nm not in e.covers:
            if e.check(st, None, 10000) != z3.unsat:
                e.covers.add(nm)
        return None

    @reg(r'^__vc_havoc_ints$')
    def _vhi(e, st, fn, a, i):
        p = a[0]
        o = p.obj
        m = st.mem[o.id]
        keep = {k: v for k, v in m.cells.items() if isinstance(v[1], (Ptr, tuple))}
        st.mem[o.id] = Mem(keep, Base(e.freshname('state_' + o.name), o.size))
        log_in(st, 'havoc_ints', '-', o.size, st.mem[o.id].tail)
        return None

    @reg(r'^__vc_havoc$')
    def _vh(e, st, fn, a, i):
        o = a[0].obj
        if is_c(a[0].off) and cval(a[0].off) == 0 and e.must(st, o.size == a[1]):
            e.log_write(st, o, BV(0), o.size)
            st.mem[o.id] = Mem({}, Base(e.freshname('state_' + o.name), o.size))
            log_in(st, 'havoc', '-', o.size, st.mem[o.id].tail)
            return None
        e.mhavoc(st, o, a[0].off, a[1], 'state')
        log_in(st, 'havoc', '-', a[1], None)
        return None

    @reg(r'^__vc_peek8$')
    def _peek(e, st, fn, a, i):
        p = a[0]
        return e.as_bv(e.mread(st, p.obj, p.off, 1))

    @reg(r'^__vc_any64$')
    def _any64(e, st, fn, a, i):
        return e.fresh(64, 'any')

    @reg(r'^__vc_trust$')
    def _vtr(e, st, fn, a, i):
        # obligations met while evaluating a precondition are part of the precondition
        st.ghost['trust'] = bool(z3.is_true(simp(i2b(a[0]))))
        return None

    @reg(r'^__vc_ghost$')
    def _vg(e, st, fn, a, i):
        st.ghost[cstr(e, st, a[0])] = a[1]
        return None

    @reg(r'^__vc_ghost_ptr$')
    def _vgp(e, st, fn, a, i):
        st.ghost[cstr(e, st, a[0])] = a[1]
        return None

    @reg(r'^__vc_size$')
    def _vsz(e, st, fn, a, i):
        return a[0].obj.size

    @reg(r'^__vc_unroll$')
    def _vun(e, st, fn, a, i):
        st.ghost['unroll'] = cval(a[0])

    @reg(r'^__vc_split$')
    def _vsp(e, st, fn, a, i):
        """case split on all values of a[0] below a[1] (constant)"""
        x, n = a
        out = []
        for k in range(cval(n)):
            s = st.copy()
            e.assume(s, x == BV(k, x.size()))
            if e.check(s) != z3.unsat:
                out.append((s, BV(k, x.size())))
        e.oblige(st, z3.ULT(x, n), 'split-exhaustive', '', i.get('loc'))
        return ('fork', out)

    @reg(r'^__vc_mono(_ptr)?$')
    def _mono(e, st, fn, a, i):
        st.ghost['mono'] = st.ghost.get('mono', ()) + ((a[0], a[1]),)
        return None

    @reg(r'^__vc_inv(_state)?$')
    def _inv(e, st, fn, a, i):
        # candidate loop invariants: pred(arg, x) for every 64-bit loop variable x, or pred(arg) of the state at the loop head
        st.ghost['inv'] = st.ghost.get('inv', ()) + ((a[0].obj.fn, a[1], fn.name.endswith('_state')),)
        return None

    @reg(r'^__vc_loop_assume$')
    def _loop_assume(e, st, fn, a, i):
        st.ghost['loopassume'] = st.ghost.get('loopassume', ()) + ((a[0].obj.fn, a[1]),)
        return None

    @reg(r'^__vc_measure$')
    def _measure(e, st, fn, a, i):
        st.ghost['measure'] = st.ghost.get('measure', ()) + ((a[0].obj.fn, a[1]),)
        return None

    def inv_cands(ctx):
        out = []
        for gi, (f, arg, state) in enumerate(ctx.est.ghost.get('inv', ())):
            if state:
                out.append(('ghost-inv%d' % gi, lambda x, f=f, arg=arg: E.eval_pred(x.st, f, [arg])))
                continue
            for k, v in ctx.entry.items():
                n = E.num(v)
                if n is None or isinstance(v, Ptr) or n.size() != 64:
                    continue

                def c(x, k=k, f=f, arg=arg):
                    n = E.num(x.vals[k])
                    return None if n is None or isinstance(x.vals[k], Ptr) else E.eval_pred(x.st, f, [arg, n])
                out.append(('ghost-inv%d(%s)' % (gi, E.keyname(k)), c))
        return out
    E.cand_gens.append(inv_cands)

    def mono_cands(ctx):
        out = []
        for gi, (pos, pred) in enumerate(ctx.est.ghost.get('mono', ())):
            for k, v in ctx.entry.items():
                n = E.num(v)
                if n is None:
                    continue
                if isinstance(pos, Ptr):
                    if not isinstance(v, Ptr) or v.obj is not pos.obj:
                        continue
                    t = pos.off
                else:
                    if isinstance(v, Ptr) or n.size() not in (32, 64):
                        continue
                    t = pos

                def mk(k, t, pred, rel):
                    def c(x):
                        v = x.vals[k]
                        n = E.num(v)
                        if n is None:
                            return None
                        if n.size() < 64:
                            n = z3.ZeroExt(64 - n.size(), n)
                        return z3.Implies(rel(t, n), pred)
                    return c
                nm = E.keyname(k)
                out.append(('ghost%d<%s' % (gi, nm), mk(k, t, pred, z3.ULT)))
                out.append(('ghost%d>=%s' % (gi, nm), mk(k, t, pred, z3.UGE)))
                out.append(('ghost%d>%s' % (gi, nm), mk(k, t, pred, z3.UGT)))
                out.append(('ghost%d<=%s' % (gi, nm), mk(k, t, pred, z3.ULE)))
        return out
    E.cand_gens.append(mono_cands)
