"""Verification-condition generator for LLVM IR produced from the real /repo sources.

Path-wise symbolic execution; loops are cut at their headers by inductive invariants (candidate templates
filtered by an inductiveness fixpoint, i.e. Houdini); library/extern calls and functions under contract are
replaced by their contracts; every memory access, signed overflow, shift, division and assertion becomes an
obligation, discharged by z3 / cvc5 / a GF(2)-affine decision procedure.
"""
import json, re, sys, time, itertools, subprocess, tempfile, os, threading
import z3

sys.setrecursionlimit(100000)
z3.set_param('rewriter.bv_le2extract', False)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def BV(v, w=64):
    return z3.BitVecVal(v, w)


def is_c(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def simp(t):
    if z3.is_bv_value(t) or z3.is_true(t) or z3.is_false(t):
        return t
    return z3.simplify(t)


def add(a, b):
    if is_c(a) and is_c(b):
        return BV(cval(a) + cval(b), a.size())
    if is_c(b) and cval(b) == 0:
        return a
    if is_c(a) and cval(a) == 0:
        return b
    return z3.simplify(a + b)


def sub(a, b):
    if is_c(a) and is_c(b):
        return BV(cval(a) - cval(b), a.size())
    if is_c(b) and cval(b) == 0:
        return a
    return z3.simplify(a - b)


def cdiff(a, b):
    """a-b as a signed python int when syntactically constant, else None"""
    if is_c(a) and is_c(b):
        d = cval(a) - cval(b)
    elif a.eq(b):
        return 0
    else:
        t = z3.simplify(a - b)
        if not is_c(t):
            return None
        d = cval(t)
    w = a.size()
    d &= (1 << w) - 1
    if d >= 1 << (w - 1):
        d -= 1 << w
    return d


def b2i(c, w=1):
    if z3.is_true(c):
        return BV(1, w)
    if z3.is_false(c):
        return BV(0, w)
    return z3.If(c, BV(1, w), BV(0, w))


def i2b(v):
    if z3.is_bool(v):
        return v
    if is_c(v):
        return z3.BoolVal(cval(v) & 1 == 1)
    c = boolish(v)
    if c is not None:
        return simp(c)
    if z3.is_app_of(v, z3.Z3_OP_ITE) and is_c(v.arg(1)) and is_c(v.arg(2)):
        a, b = cval(v.arg(1)), cval(v.arg(2))
        if (a, b) == (1, 0):
            return v.arg(0)
        if (a, b) == (0, 1):
            return z3.Not(v.arg(0))
    return v == BV(1, v.size())


def boolish(v):
    """v in {0,1} as a Bool: If(c,1,0) -> c (nested and negated forms included)"""
    if is_c(v):
        return z3.BoolVal(cval(v) == 1) if cval(v) in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        x, y = boolish(v.arg(1)), boolish(v.arg(2))
        if x is None or y is None:
            return None
        return z3.If(v.arg(0), x, y)
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
        return boolish(v.arg(0))
    if z3.is_app_of(v, z3.Z3_OP_CONCAT) and v.num_args() == 2 and is_c(v.arg(0)) and cval(v.arg(0)) == 0:
        return boolish(v.arg(1))
    return None


class Obj:
    _n = 0

    def __init__(self, name, size, kind, const=False):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size  # z3 BV64
        self.kind = kind  # 'heap','stack','global','arg','fn'
        self.const = const
        self.addr = z3.BitVec('addr!%s!%d' % (name, self.id), 64)
        self.fn = None

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULL = Ptr(None, BV(0))


# ---------------------------------------------------------------- memory layers
class Base:
    """initial contents: an uninterpreted function idx -> byte"""
    __slots__ = ('fn', 'small', 'words', 'own', 'name')

    def __init__(self, name, size=None):
        self.fn = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
        self.name = name
        self.small = size is not None and is_c(size) and cval(size) <= 256
        self.words = {}  # off -> (n, var): the contents at constant places, as words (small objects)
        self.own = {}  # byte offset -> word offset

    def read(self, off, n):
        if self.small:
            if is_c(off):
                o = cval(off)
                w = self.words.get(o)
                if w is not None and w[0] == n:
                    return w[1]
                if not any((o + k) in self.own for k in range(n)):
                    v = z3.BitVec(self.name.replace('!', '_').replace('@', '_') + '_w%d_%d' % (o, n) + '!0', 8 * n)
                    self.words[o] = (n, v)
                    for k in range(n):
                        self.own[o + k] = o
                    return v
                return concat_bytes([self.byte(o + k) for k in range(n)])
            bs = []
            for k in range(n):
                x = add(off, BV(k))
                r = self.fn(x)
                for o in list(self.own):
                    r = z3.If(x == BV(o), self.byte(o), r)
                bs.append(r)
            return concat_bytes(bs)
        return concat_bytes([self.fn(add(off, BV(k))) for k in range(n)])

    def byte(self, o):
        w = self.own.get(o)
        if w is None:
            return self.read(BV(o), 1)
        return byte_of(self.words[w][1], self.words[w][0], o - w)


class ConstBytes:
    __slots__ = ('data', 'size', 'ref')

    def __init__(self, data, size):
        self.data = data
        self.size = size


class LCells:
    __slots__ = ('cells', 'prev')


class LStore:
    __slots__ = ('off', 'n', 'val', 'prev')


class LCopy:
    __slots__ = ('dst', 'ln', 'smem', 'soff', 'sobj', 'prev')


class LSet:
    __slots__ = ('dst', 'ln', 'byte', 'prev')


class LHavoc:
    __slots__ = ('lo', 'ln', 'base', 'prev')


class Mem:
    __slots__ = ('cells', 'tail')

    def __init__(self, cells, tail):
        self.cells = cells
        self.tail = tail


def byte_of(val, n, k):
    """k-th little-endian byte of an n-byte value"""
    if isinstance(val, Ptr):
        val = ptr2int(val)
    if z3.is_fp(val):
        val = z3.fpToIEEEBV(val)
    if n == 1:
        return val
    if is_c(val):
        return BV((cval(val) >> (8 * k)) & 255, 8)
    return z3.simplify(z3.Extract(8 * k + 7, 8 * k, val))


def ptr2int(p):
    if p.obj is None:
        return p.off
    return add(p.obj.addr, p.off)


def concat_bytes(bs):
    if len(bs) == 1:
        return bs[0]
    if all(is_c(b) for b in bs):
        v = 0
        for k, b in enumerate(bs):
            v |= cval(b) << (8 * k)
        return BV(v, 8 * len(bs))
    return z3.simplify(z3.Concat(*reversed(bs)))


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'loc', 'retid', 'normal', 'unwind', 'allocas', 'varargs', 'loopstop', 'unroll')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.loc = dict(self.loc)
        f.retid = self.retid
        f.normal = self.normal
        f.unwind = self.unwind
        f.allocas = self.allocas
        f.unroll = self.unroll
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcids = frozenset()
        self.soft = False
        self.dead = frozenset()
        self.oreads = {}
        self.ofacts = {}
        self.ghost = {}
        self.wlog = None
        self.clog = None
        self.exc = None
        self.trace = ()
        self.nolog = False
        self.tags = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcids = self.pcids
        s.soft = self.soft
        s.dead = self.dead
        s.oreads = {k: list(v) for k, v in self.oreads.items()}
        s.ofacts = {k: list(v) for k, v in self.ofacts.items()}
        s.ghost = dict(self.ghost)
        s.wlog = list(self.wlog) if self.wlog is not None else None
        s.clog = self.clog  # shared on purpose (collects comparison operands)
        s.exc = self.exc
        s.trace = self.trace
        s.nolog = self.nolog
        s.tags = dict(self.tags)
        return s

    @property
    def top(self):
        return self.frames[-1]


class Fn:
    def __init__(self, j):
        self.name = j['name']
        self.dem = j['dem']
        self.ret = j['ret']
        self.args = j['args']
        self.blocks = j.get('blocks')
        self.noret = j.get('noret')
        self._loops = None
        self.short = short_name(self.dem)

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t['op']
        if op == 'br':
            return t['succ']
        if op == 'switch':
            return [t['def']] + [c[1] for c in t['cases']]
        if op == 'invoke':
            return [t['normal'], t['unwind']]
        return []

    def loops(self):
        """header -> set of blocks (natural loops, merged by header)"""
        if self._loops is None:
            n = len(self.blocks)
            preds = [[] for _ in range(n)]
            order = []
            seen = set()
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            rpo = list(reversed(order))
            num = {b: i for i, b in enumerate(rpo)}
            for b in rpo:
                for s in self.succs(b):
                    preds[s].append(b)
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = idom[b]
            loops = {}
            for b in rpo:
                for s in self.succs(b):
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(preds[x])
                    elif num[s] <= num[b]:
                        raise Unsupported('irreducible control flow in ' + self.dem)
            self._loops = loops
        return self._loops


def short_name(dem):
    """strip template args/params for display"""
    return dem if len(dem) < 160 else dem[:157] + '...'


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {}
        for f in j['functions']:
            self.fns[f['name']] = Fn(f)
        self.globals = {g['name']: g for g in j['globals']}


class Obligation:
    def __init__(self, kind, where, fn, label):
        self.kind = kind
        self.where = where
        self.fn = fn
        self.label = label
        self.instances = 0
        self.failed = []
        self.backends = {}

    @property
    def name(self):
        return '%s:%s%s' % (self.fn, self.kind, (':' + self.label) if self.label else '')


class LoopCtx:
    """what invariant candidates see"""

    def __init__(self, eng, st, vals, entry, est, terms, incs, fnname, header):
        self.eng = eng
        self.st = st
        self.vals = vals  # key -> value at this point
        self.entry = entry  # key -> value at loop entry
        self.est = est
        self.terms = terms
        self.incs = incs
        self.fn = fnname
        self.header = header


class Stop(Exception):
    pass


class Engine:
    def __init__(self, module, contracts=None, opts=None):
        self.m = module
        self.opts = dict(feas_ms=3000, ob_ms=20000, max_unroll=80, max_paths=20000, deadline=None, check_overflow=True,
                         require_termination=True, allow_throw=False)
        if opts:
            self.opts.update(opts)
        self.contracts = []  # list of (regex on demangled or name, handler)
        self.user_contracts = contracts or []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['feas_ms'])
        self.sstack = []
        self.obs = {}
        self.record = True
        self.fresh_n = 0
        self.gobjs = {}
        self.gmem = {}
        self.stats = dict(z3_s=0.0, z3_n=0, cvc5_s=0.0, cvc5_n=0, gf2_s=0.0, gf2_n=0, paths=0, feas_n=0, feas_s=0.0, steps=0)
        self.backend_count = {}
        self.covered = set()
        self.covers = set()
        self.cand_gens = []  # functions(LoopCtx) -> list of (name, callable(LoopCtx)->Bool)
        self.hooks_affine = None
        self.pc_filter = None
        self.functions_seen = {}
        self.contract_used = {}
        self.inlined = {}
        self.assumptions = set()
        self.loops_info = []
        self.cur_entry = None
        self.on_unhandled = None
        self.decide_cache = {}
        self._keep = []
        self._keptids = set()
        self.loop_extra = []
        self.dry = False
        self._exit_terminal = []
        import contracts_libc
        contracts_libc.install(self)

    # ------------------------------------------------------------ fresh
    def fresh(self, w, name='x'):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def freshname(self, name):
        self.fresh_n += 1
        return '%s!%d' % (name, self.fresh_n)

    def fresh_of(self, ty, name='x'):
        k = ty[0]
        if k == 'i':
            if ty[1] == 1:
                self.fresh_n += 1
                return z3.Bool('%s!%d' % (name, self.fresh_n))
            return self.fresh(ty[1], name)
        if k == 'f':
            self.fresh_n += 1
            return z3.FP('%s!%d' % (name, self.fresh_n), z3.Float64() if ty[1] == 64 else z3.Float32() if ty[1] == 32 else z3.FPSort(15, 64))
        if k == 'p':
            return Ptr(Obj('undefptr', BV(0), 'undef'), BV(0))
        if k == 's':
            return [self.fresh_of(t, name) for t in ty[3]]
        if k in ('a', 'vec'):
            return [self.fresh_of(ty[3], name) for _ in range(ty[1])]
        if k == 'v':
            return None
        raise Unsupported('fresh of type %r' % (ty,))

    # ------------------------------------------------------------ solver
    def tick(self):
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Budget('time budget exhausted')

    def sync(self, pc):
        i = 0
        ss = self.sstack
        n = min(len(ss), len(pc))
        while i < n and ss[i] is pc[i]:
            i += 1
        if len(ss) > i:
            self.solver.pop(len(ss) - i)
            del ss[i:]
        for t in pc[i:]:
            self.solver.push()
            if self.pc_filter is None or self.pc_filter(t):
                self.solver.add(t)
            ss.append(t)

    def check(self, st, extra=None, ms=None):
        """sat check of st.pc (+extra). returns z3 result"""
        self.tick()
        for attempt in range(3):
            try:
                return self.check1(st, extra, ms)
            except z3.Z3Exception as x:
                # a solver timer that fires after its query has ended cancels the next call ('push canceled'):
                # nothing was decided, so start over on a new solver
                if attempt == 2 or 'cancel' not in str(x):
                    raise
                self.solver = z3.Solver()
                self.solver.set('timeout', self.opts['feas_ms'])
                self.sstack = []
                self.stats['restarts'] = self.stats.get('restarts', 0) + 1

    def check1(self, st, extra, ms):
        self.sync(st.pc)
        t0 = time.time()
        self.solver.set('timeout', ms or self.opts['feas_ms'])
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            self._model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            self._model = self.solver.model() if r == z3.sat else None
        self.stats['feas_n'] += 1
        self.stats['feas_s'] += time.time() - t0
        return r

    def feasible(self, st, cond):
        cond = simp(cond)
        if z3.is_false(cond):
            return False
        return self.decide(st, cond) != 'unsat'

    def must(self, st, cond, ms=None):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.decide(st, z3.Not(cond)) == 'unsat'

    def decide(self, st, extra, ms=None):
        """is pc + extra satisfiable? 'unsat' answers are definite; cached (pc only grows along a path)"""
        extra = simp(extra)
        ids = tuple(t.get_id() for t in st.pc)
        key = extra.get_id()
        ent = self.decide_cache.get(key)
        if ent is None:
            ent = self.decide_cache[key] = (extra, [], {})
            self._keep.append(extra)
        for pre in ent[1]:
            if ids[:len(pre)] == pre:
                return 'unsat'
        if ids in ent[2]:
            return ent[2][ids]
        for t in st.pc[self._kept_upto(st.pc):]:
            self._keep.append(t)
        r = self.check(st, extra, 250)
        if r == z3.unknown:
            self.stats['hard_n'] = self.stats.get('hard_n', 0) + 1
            x = self.lia(st, extra, 800 if ms == 0 else 2000)
            if x == 'unsat':
                ent[1].append(ids)
                return 'unsat'
            if x == 'sat':
                ent[2][ids] = 'sat'
                return 'sat'
            if ms == 0:
                return 'unknown'
            t0 = time.time()
            x = self.cvc5(st, extra, ms or self.opts['feas_ms'])
            self.stats['cvc5_s'] += time.time() - t0
            if os.environ.get('VC_SLOW'):
                print('SLOW decide %.1f %s pc=%d at %s' % (time.time() - t0, x, len(st.pc), [(f.fn.dem[:60], f.blk) for f in st.frames[-2:]]), str(extra)[:300].replace('\n', ' '))
            self.stats['cvc5_n'] += 1
            r = {'unsat': z3.unsat, 'sat': z3.sat}.get(x, z3.unknown)
        if r == z3.unsat:
            ent[1].append(ids)
            return 'unsat'
        ent[2][ids] = str(r)
        return str(r)

    def _kept_upto(self, pc):
        n = len(pc)
        while n > 0 and pc[n - 1].get_id() not in self._keptids:
            n -= 1
        for t in pc[n:]:
            self._keptids.add(t.get_id())
        return n

    def assume(self, st, c, soft=False):
        """soft: an assumption that may be taken back (loop-invariant candidate); it never stands in for a hard one"""
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(st, x, soft)
            return
        if soft:
            st.soft = True
            st.pc.append(c)
            return
        i = c.get_id()
        if i in st.pcids:
            return
        st.pcids = st.pcids | {i}
        st.pc.append(c)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, label='', loc=None):
        """goal must hold in st; afterwards it is assumed"""
        goal = simp(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        fn = st.top.fn.dem if st.frames else '?'
        where = loc or ''
        if not self.record or st.ghost.get('trust'):
            self.assume(st, goal)
            return True
        key = (kind, label, where, fn)
        ob = self.obs.get(key)
        if ob is None:
            ob = self.obs[key] = Obligation(kind, where, fn, label)
        ob.instances += 1
        t0 = time.time()
        ok, be, model = self.discharge(st, goal)
        if os.environ.get('VC_SLOW') and time.time() - t0 > 2:
            print('SLOW oblige %.1f %s %s:%s %s pc=%d' % (time.time() - t0, be, kind, label, where, len(st.pc)), flush=True)
        ob.backends[be] = ob.backends.get(be, 0) + 1
        self.backend_count[be] = self.backend_count.get(be, 0) + 1
        if not ok:
            ob.failed.append(dict(reason=be, model=model, trace=list(st.trace[-60:]),
                                  ctx=(list(st.pc), goal, st.ghost.get('inputs', ())) if len(ob.failed) < 2 else None))
            self.assume(st, goal)
        elif kind == 'assert' or kind.startswith('loop'):
            self.assume(st, goal)  # a lemma for what follows
        return ok

    def discharge(self, st, goal):
        """-> (ok, backend, model)"""
        if z3.is_true(goal):
            return True, 'simplifier', None
        if self.hooks_affine is not None and z3.is_eq(goal) and z3.is_bv(goal.arg(0)):
            t0 = time.time()
            r = self.hooks_affine(self, st, goal)
            self.stats['gf2_s'] += time.time() - t0
            self.stats['gf2_n'] += 1
            if r is True:
                return True, 'gf2', None
        if z3.is_eq(goal) and z3.is_fp(goal.arg(0)) and self.congr(st, goal.arg(0), goal.arg(1)):
            return True, 'congruence+z3', None
        t0 = time.time()
        ng = z3.Not(goal)
        r = self.check(st, ng, 250)
        m = self._model
        self.stats['z3_s'] += time.time() - t0
        self.stats['z3_n'] += 1
        if r == z3.unsat:
            return True, 'z3', None
        if r == z3.sat:
            return False, 'z3:countermodel', self.show_model(m)
        if self.lia(st, ng) == 'unsat':
            return True, 'z3-lia', None
        t0 = time.time()
        r, r2, m = self.race(st, ng, self.opts['ob_ms'])
        self.stats['cvc5_s'] += time.time() - t0
        self.stats['cvc5_n'] += 1
        if r2 == 'unsat':
            return True, 'cvc5', None
        if r == z3.unsat:
            return True, 'z3', None
        if r == z3.sat:
            return False, 'z3:countermodel', self.show_model(m)
        return False, 'cvc5:countermodel' if r2 == 'sat' else 'unknown', None

    def congr(self, st, a, b, depth=0):
        """a = b because both are the same operation on equal arguments (the arguments are compared by the solver)"""
        a, b = simp(a), simp(b)
        if a.eq(b):
            return True
        if depth > 60:
            return False
        if not z3.is_fp(a):
            if a.sort() != b.sort():
                return False
            if not z3.is_fprm(a) and self.must(st, a == b):
                return True
            if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE):
                return False
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                ok = True
                for k, lit in ((1, c), (2, z3.Not(c))):
                    if not self.feasible(st, lit):
                        continue
                    t = st.copy()
                    t.pc = list(t.pc) + [lit]
                    if not self.congr(t, x.arg(k), y, depth + 1):
                        ok = False
                        break
                return ok
        if not (z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() > 0):
            return False
        xs, ys = a.children(), b.children()
        if all(self.congr(st, x, y, depth + 1) for x, y in zip(xs, ys)):
            return True
        if a.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL):
            return self.congr(st, xs[1], ys[2], depth + 1) and self.congr(st, xs[2], ys[1], depth + 1)
        return False

    def lia(self, st, ng, ms=2500):
        import lia
        self.tick()
        t0 = time.time()
        r = lia.solve([simp(t) for t in st.pc if self.pc_filter is None or self.pc_filter(t)] + [simp(ng)], ms)
        self.stats['lia_s'] = self.stats.get('lia_s', 0) + time.time() - t0
        self.stats['lia_n'] = self.stats.get('lia_n', 0) + 1
        return r

    def race(self, st, ng, ms):
        """z3 and cvc5 side by side -> (z3 result, cvc5 result, z3 model)"""
        self.tick()
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*[t for t in st.pc if self.pc_filter is None or self.pc_filter(t)])
        s.add(ng)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        res = {}
        p = subprocess.Popen(['/usr/bin/env', 'cvc5', '--tlimit=%d' % ms, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lock = threading.Lock()

        def wait():
            try:
                o = p.communicate(timeout=ms / 1000 + 10)[0]
                res['c'] = o.split('\n')[0].strip()
            except Exception:
                p.kill()
            with lock:
                if res.get('c') == 'unsat' and not res.get('done'):
                    s.ctx.interrupt()
        th = threading.Thread(target=wait, daemon=True)
        th.start()
        r, m = z3.unknown, None
        try:
            r = s.check()
            if r == z3.sat:
                m = s.model()
        except z3.Z3Exception:
            pass
        with lock:
            res['done'] = True
        if r != z3.unknown:
            p.kill()
        th.join()
        try:
            os.unlink(f.name)
        except OSError:
            pass
        return r, res.get('c'), m

    def cvc5(self, st, ng, ms):
        self.tick()
        s = z3.Solver()
        s.add(*[t for t in st.pc if self.pc_filter is None or self.pc_filter(t)])
        s.add(ng)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['/usr/bin/env', 'cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True,
                               timeout=ms / 1000 + 10)
            return p.stdout.split('\n')[0].strip()
        except Exception:
            return 'error'
        finally:
            os.unlink(f.name)

    def replay_inputs(self, ctx):
        """driver inputs (replay file lines) of countermodels of a failed obligation, small ones first"""
        pc, goal, inputs = ctx
        base = [t for t in pc if self.pc_filter is None or self.pc_filter(t)] + [z3.Not(goal)]
        small = [(k, v) for k, n, v, b in inputs if k in ('obj', 'u64', 'u32', 'havoc')]
        for bound in (16, 200, 70000, None):
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*base)
            for k, v in small:
                if bound is not None:
                    s.add(z3.ULE(v, BV(bound, v.size())))
                elif k in ('obj', 'havoc'):
                    s.add(z3.ULE(v, BV(1 << 17, v.size())))
            if s.check() != z3.sat:
                continue
            m = s.model()
            out = []

            def val(t):
                t = m.eval(t, model_completion=True)
                if z3.is_fp(t):
                    t = m.eval(z3.fpToIEEEBV(t), model_completion=True)
                if z3.is_bool(t):
                    return 1 if z3.is_true(t) else 0
                return t.as_long()
            for k, n, v, b in inputs:
                x = val(v)
                hx = ''
                if k in ('obj', 'havoc', 'havoc_ints'):
                    hx = ''.join('%02x' % (val(b.byte(o)) if b.small else val(b.fn(BV(o)))) for o in range(x)) if b is not None else ''
                out.append('%s %s %d %s' % (k, n or '-', x, hx))
            yield out

    def show_model(self, m):
        if m is None:
            return None
        out = {}
        for d in m.decls():
            n = d.name()
            if n.startswith('addr!'):
                continue
            v = m[d]
            sv = str(v)
            if len(sv) > 400:
                sv = sv[:400] + '...'
            out[n] = sv.replace('\n', ' ')
            if len(out) > 80:
                break
        return out

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, kind, content=None, const=False):
        o = Obj(name, size, kind, const)
        st.mem[o.id] = Mem({}, content if content is not None else Base('%s@%d' % (name, o.id), size))
        # address facts: non-null, no wrap
        return o

    def global_obj(self, st, name):
        if name in self.gobjs:
            o = self.gobjs[name]
            if o.id not in st.mem and o.kind == 'global':
                st.mem[o.id] = self.gmem[o.id]
            return o
        if name in self.m.fns:
            o = Obj(name, BV(1), 'fn')
            o.fn = self.m.fns[name]
            self.gobjs[name] = o
            return o
        g = self.m.globals[name]
        o = Obj(name, BV(g.get('size', 0)), 'global', g.get('const', False))
        self.gobjs[name] = o
        if 'init' in g:
            data = bytes.fromhex(g['init'])
            if g.get('const'):
                cb = ConstBytes(data, g['size'])
                mem = Mem({}, cb)
            elif self.opts.get('globals_initial') and re.search(self.opts['globals_initial'], name):
                mem = Mem({}, ConstBytes(data, g['size']))
            else:
                mem = Mem({}, Base('glob_%s' % name, o.size))  # mutable global: arbitrary contents
            cells = {}
            if g.get('const') or isinstance(mem.tail, ConstBytes):
                for off, c in g.get('rel', []):
                    cells[off] = (8, ('lazy', c))
            mem = Mem(cells, mem.tail)
        else:
            mem = Mem({}, Base('glob_%s' % name, o.size))
        self.gmem[o.id] = mem
        st.mem[o.id] = mem
        return o

    # ------------------------------------------------------------ memory read
    def log_read(self, st, obj, off):
        if st.nolog or obj is None:
            return
        l = st.oreads.setdefault(obj.id, [])
        for x in l:
            if x.eq(off):
                return
        l.append(off)
        for f in st.ofacts.get(obj.id, ()):
            self.inst(st, f, off)

    def inst(self, st, f, off):
        st.nolog = True
        try:
            c = f(st, off)
        finally:
            st.nolog = False
        if c is not None:
            self.assume(st, c)

    def add_fact(self, st, obj, f):
        """f(st, off)->Bool holds for every byte offset of obj (of its *current* contents, captured by f)"""
        st.ofacts.setdefault(obj.id, []).append(f)
        for off in list(st.oreads.get(obj.id, ())):
            self.inst(st, f, off)

    def mread(self, st, obj, off, n, log=True):
        """n-byte value at off: BV(8n) or Ptr/FP when a whole such cell is stored there"""
        if log:
            if n <= 8:
                for k in range(n):
                    self.log_read(st, obj, add(off, BV(k)))
        return self.rd_mem(st, st.mem[obj.id], obj, off, n)

    def rd_mem(self, st, mem, obj, off, n):
        if mem.cells:
            r = self.rd_cells(st, mem.cells, mem.tail, obj, off, n)
            return r
        return self.rd(st, mem.tail, obj, off, n)

    def lazy(self, st, v):
        if isinstance(v, tuple) and v[0] == 'lazy':
            return self.const(st, v[1])
        return v

    def rd_cells(self, st, cells, tail, obj, off, n):
        if is_c(off):
            o = cval(off)
            c = cells.get(o)
            if c is not None and c[0] == n:
                return self.lazy(st, c[1])
            ov = [k for k, (m, _) in cells.items() if k < o + n and o < k + m]
            if not ov:
                return self.rd(st, tail, obj, off, n)
            if n == 1:
                k = ov[0]
                return byte_of(self.lazy(st, cells[k][1]), cells[k][0], o - k)
            return self.bytewise(st, lambda x: self.rd_cells(st, cells, tail, obj, x, 1), off, n)
        # symbolic offset
        if n > 1:
            # aligned element-wise access to equally sized cells
            same = [k for k, (m, _) in cells.items() if m == n]
            if len(same) == len(cells) and same:
                base = min(same)
                if all((k - base) % n == 0 for k in same) and self.must(st, z3.And(z3.URem(off - BV(base), BV(n)) == 0)):
                    r = None
                    if all(not isinstance(cells[k][1], (Ptr, tuple)) for k in same):
                        if self.must(st, z3.Or(*[off == BV(k) for k in same])):
                            r = self.as_bv(cells[same[-1]][1])
                            for k in same[:-1]:
                                r = z3.If(off == BV(k), self.as_bv(cells[k][1]), r)
                            return r
            return self.bytewise(st, lambda x: self.rd_cells(st, cells, tail, obj, x, 1), off, n)
        allb = []
        for k, (m, v) in cells.items():
            for j in range(m):
                allb.append((k + j, k, m, j))
        if not allb:
            return self.rd(st, tail, obj, off, n)
        lo = min(x[0] for x in allb)
        hi = max(x[0] for x in allb)
        if self.must(st, z3.Or(z3.ULT(off, BV(lo)), z3.UGT(off, BV(hi)))):
            return self.rd(st, tail, obj, off, n)
        if hi - lo + 1 == len(allb) and self.must(st, z3.And(z3.UGE(off, BV(lo)), z3.ULE(off, BV(hi)))):
            r = None
        else:
            r = self.rd(st, tail, obj, off, n)
        for (o, k, m, j) in sorted(allb):
            b = byte_of(self.lazy(st, cells[k][1]), m, j)
            r = b if r is None else z3.If(off == BV(o), b, r)
        return r

    def as_bv(self, v):
        if isinstance(v, Ptr):
            return ptr2int(v)
        if z3.is_fp(v):
            return z3.fpToIEEEBV(v)
        if z3.is_bool(v):
            return b2i(v, 8)
        return v

    def bytewise(self, st, f, off, n):
        return concat_bytes([self.as_bv(f(add(off, BV(k)))) for k in range(n)])

    def rd(self, st, L, obj, off, n):
        t = type(L)
        if t is Base:
            return L.read(off, n)
        if t is ConstBytes:
            return self.rd_const(st, L, off, n)
        if t is LCells:
            return self.rd_cells(st, L.cells, L.prev, obj, off, n)
        if t is LStore:
            d = cdiff(off, L.off)
            if d is not None:
                if d == 0 and n == L.n:
                    return L.val
                if d >= L.n or d + n <= 0:
                    return self.rd(st, L.prev, obj, off, n)
                if n == 1:
                    return byte_of(L.val, L.n, d)
                return self.bytewise(st, lambda x: self.rd(st, L, obj, x, 1), off, n)
            dd = off - L.off
            if n == L.n:
                if self.must(st, dd == 0):
                    return L.val
            if self.must(st, z3.And(z3.UGE(dd, BV(L.n)), z3.ULE(dd, BV(-n)))):
                return self.rd(st, L.prev, obj, off, n)
            if n > 1:
                return self.bytewise(st, lambda x: self.rd(st, L, obj, x, 1), off, n)
            r = self.rd(st, L.prev, obj, off, 1)
            for k in range(L.n):
                r = z3.If(dd == BV(k), byte_of(L.val, L.n, k), r)
            return r
        if t is LCopy or t is LSet or t is LHavoc:
            lo = L.lo if t is LHavoc else L.dst
            d = sub(off, lo)
            ln = L.ln
            inside = z3.And(z3.ULT(d, ln), z3.ULE(BV(n), ln - d))
            if is_c(d) and is_c(ln):
                dv, lv = cval(d), cval(ln)
                if dv + n <= lv:
                    c = 1
                elif all(((dv + k) & ((1 << 64) - 1)) >= lv for k in range(n)):
                    c = 0
                else:
                    c = 2
            elif self.must(st, inside):
                c = 1
            elif self.must(st, z3.And(*[z3.UGE(add(d, BV(k)), ln) for k in range(n)])):
                c = 0
            else:
                c = 2
            if c == 0:
                return self.rd(st, L.prev, obj, off, n)
            if c == 1:
                return self.rd_in(st, L, d, n)
            if n > 1:
                return self.bytewise(st, lambda x: self.rd(st, L, obj, x, 1), off, n)
            a = self.as_bv(self.rd_in(st, L, d, 1))
            b = self.as_bv(self.rd(st, L.prev, obj, off, 1))
            if a.eq(b):
                return a
            return z3.If(z3.ULT(d, ln), a, b)
        raise Unsupported('layer %r' % t)

    def rd_in(self, st, L, d, n):
        t = type(L)
        if t is LCopy:
            so = add(L.soff, d)
            if n <= 8:
                for k in range(n):
                    self.log_read(st, L.sobj, add(so, BV(k)))
            return self.rd_mem(st, L.smem, L.sobj, so, n)
        if t is LSet:
            return concat_bytes([L.byte] * n)
        return self.rd(st, L.base, None, add(d, L.lo), n)

    def rd_const(self, st, L, off, n):
        if is_c(off):
            o = cval(off)
            if o + n <= L.size:
                b = L.data[o:o + n]
                b = b + b'\0' * (n - len(b))
                return BV(int.from_bytes(b, 'little'), 8 * n)
            return self.fresh(8 * n, 'oob')
        import gf2
        r = gf2.table_read(self, st, L, off, n)
        if r is not None:
            return r
        # generic: enumerate feasible constant offsets through base + stride * k when small, else uninterpreted function with all entries
        if L.size <= 4096:
            cnt = L.size - n + 1
            stride = n if (L.size % n == 0 and self.must(st, z3.URem(off, BV(n)) == 0)) else 1
            lo, hi = self.range_of(st, off, L.size)
            if hi is None:
                hi = cnt - 1
            ks = [k for k in range(0, cnt, stride) if lo <= k <= hi]
            if len(ks) <= 1024 and ks:
                vals = {}
                for k in ks:
                    vals.setdefault((L.data[k:k + n] + b'\0' * n)[:n], []).append(k)
                items = sorted(vals.items(), key=lambda kv: -len(kv[1]))
                r = BV(int.from_bytes(items[0][0], 'little'), 8 * n)
                for b, kk in items[1:]:
                    v = BV(int.from_bytes(b, 'little'), 8 * n)
                    # intervals
                    r = z3.If(z3.Or(*[off == BV(k) for k in kk]), v, r)
                return r
        raise Unsupported('symbolic read of large constant table')

    def range_of(self, st, off, limit):
        lo, hi = 0, limit
        # binary search for the upper and lower bound
        if not self.must(st, z3.ULE(off, BV(limit))):
            return 0, None
        a, b = 0, limit
        while a < b:
            mid = (a + b) // 2
            if self.must(st, z3.ULE(off, BV(mid))):
                b = mid
            else:
                a = mid + 1
        hi = b
        a, b = 0, hi
        while a < b:
            mid = (a + b + 1) // 2
            if self.must(st, z3.UGE(off, BV(mid))):
                a = mid
            else:
                b = mid - 1
        return a, hi

    # ------------------------------------------------------------ memory write
    def log_write(self, st, obj, off, n):
        if st.wlog is not None:
            st.wlog.append((obj, off, n))

    def mwrite(self, st, obj, off, n, val, log=True):
        if log:
            self.log_write(st, obj, off, BV(n))
        mem = st.mem[obj.id]
        if z3.is_expr(val) and z3.is_bool(val):
            val = b2i(val, 8 * n)
        if is_c(off) and cval(off) < (1 << 62):
            o = cval(off)
            cells = dict(mem.cells)
            self.cut(st, cells, o, o + n)
            cells[o] = (n, val)
            st.mem[obj.id] = Mem(cells, mem.tail)
        else:
            L = LStore()
            L.off, L.n, L.val = off, n, val
            L.prev = self.freeze(mem)
            st.mem[obj.id] = Mem({}, L)

    def cut(self, st, cells, lo, hi):
        for k in list(cells):
            m, v = cells[k]
            if k < hi and lo < k + m:
                del cells[k]
                for j in range(m):
                    if not (lo <= k + j < hi):
                        cells[k + j] = (1, byte_of(self.lazy(st, v), m, j))

    def freeze(self, mem):
        if not mem.cells:
            return mem.tail
        L = LCells()
        L.cells = mem.cells
        L.prev = mem.tail
        return L

    def mcopy(self, st, dst, doff, src, soff, ln):
        self.log_write(st, dst, doff, ln)
        mem = st.mem[dst.id]
        smem = st.mem[src.id]
        if is_c(ln) and cval(ln) == 0:
            return
        if is_c(ln) and is_c(doff) and cval(ln) <= 64:
            # small constant copy to a constant place: copy cell-wise
            n, o = cval(ln), cval(doff)
            pieces = []
            pos = 0
            if is_c(soff) and smem.cells:
                s0 = cval(soff)
                ks = sorted(k for k, (m, _) in smem.cells.items() if s0 <= k and k + m <= s0 + n)
                cover = []
                for k in ks:
                    if k - s0 >= pos:
                        while pos < k - s0:
                            cover.append((pos, 1))
                            pos += 1
                        cover.append((pos, smem.cells[k][0]))
                        pos += smem.cells[k][0]
                while pos < n:
                    cover.append((pos, 1))
                    pos += 1
            else:
                # natural chunks of 8
                cover = []
                while pos < n:
                    w = 8 if (n - pos) >= 8 and pos % 8 == 0 and n % 8 == 0 and False else 1
                    cover.append((pos, w))
                    pos += w
            vals = [(p, w, self.mread(st, src, add(soff, BV(p)), w)) for p, w in cover]
            cells = dict(mem.cells)
            self.cut(st, cells, o, o + n)
            for p, w, v in vals:
                cells[o + p] = (w, v)
            st.mem[dst.id] = Mem(cells, mem.tail)
            return
        L = LCopy()
        L.dst, L.ln, L.smem, L.soff, L.sobj = doff, ln, smem, soff, src
        L.prev = self.freeze(mem)
        st.mem[dst.id] = Mem({}, L)

    def mset(self, st, obj, off, byte, ln):
        self.log_write(st, obj, off, ln)
        mem = st.mem[obj.id]
        if is_c(ln) and cval(ln) == 0:
            return
        if is_c(ln) and is_c(off) and cval(ln) <= 64 and is_c(byte):
            o, n = cval(off), cval(ln)
            cells = dict(mem.cells)
            self.cut(st, cells, o, o + n)
            p = 0
            while p < n:
                w = 8 if n - p >= 8 else 1
                cells[o + p] = (w, BV(int.from_bytes(bytes([cval(byte)] * w), 'little'), 8 * w))
                p += w
            st.mem[obj.id] = Mem(cells, mem.tail)
            return
        L = LSet()
        L.dst, L.ln, L.byte = off, ln, byte
        L.prev = self.freeze(mem)
        st.mem[obj.id] = Mem({}, L)

    def mhavoc(self, st, obj, lo, ln, name='hv', log=True):
        if log:
            self.log_write(st, obj, lo, ln)
        L = LHavoc()
        L.lo, L.ln = lo, ln
        L.base = Base(self.freshname(name + '_' + obj.name))
        L.prev = self.freeze(st.mem[obj.id])
        st.mem[obj.id] = Mem({}, L)

    # ------------------------------------------------------------ access checks
    def access(self, st, p, n, what, loc, write=False):
        """bounds obligation. n: z3 BV64. returns False if the path cannot continue"""
        if not isinstance(p, Ptr):
            raise Unsupported('non-pointer access')
        if p.obj is None:
            self.oblige(st, z3.BoolVal(False) if is_c(n) and cval(n) > 0 else n == BV(0), 'null-' + what, '', loc)
            return False
        o = p.obj
        if o.id in st.dead:
            self.oblige(st, z3.BoolVal(False), 'use-after-free-' + what, o.name, loc)
            return False
        if o.kind in ('fn', 'undef') or o.id not in st.mem:
            if o.kind == 'global':
                st.mem[o.id] = self.gmem[o.id]
            else:
                self.oblige(st, z3.BoolVal(False), 'bad-pointer-' + what, o.name, loc)
                return False
        if write and o.const:
            self.oblige(st, z3.BoolVal(False), 'write-to-const', o.name, loc)
            return False
        if is_c(p.off) and is_c(n) and is_c(o.size):
            if cval(p.off) + cval(n) <= cval(o.size):
                if self.record:
                    self.backend_count['const-bounds'] = self.backend_count.get('const-bounds', 0) + 1
                return True
        g = z3.And(z3.ULE(n, o.size), z3.ULE(p.off, o.size - n))
        self.oblige(st, g, 'in-bounds-' + what, o.name, loc)
        if z3.is_false(simp(g)):
            return False
        return True

    # ------------------------------------------------------------ constants
    def const(self, st, v):
        k = v[0]
        if k == 'i':
            w = v[1]
            if w == 1:
                return z3.BoolVal(v[2] == '1')
            return BV(int(v[2]), w)
        if k == 'g':
            return Ptr(self.global_obj(st, v[1]), BV(0))
        if k == 'null':
            return NULL
        if k == 'f':
            w = v[1]
            if w == 64:
                return z3.simplify(z3.fpBVToFP(BV(int(v[2]), 64), z3.Float64()))
            if w == 32:
                return z3.simplify(z3.fpBVToFP(BV(int(v[2]), 32), z3.Float32()))
            raise Unsupported('fp%d' % w)
        if k == 'undef' or k == 'poison':
            return self.fresh_of(v[1], 'undef')
        if k == 'zero':
            return self.zero(v[1])
        if k == 'agg':
            return [self.const(st, e) for e in v[2]]
        if k == 'cgep':
            p = self.const(st, v[1])
            return Ptr(p.obj, add(p.off, BV(int(v[2]))))
        if k == 'ce':
            op = v[1]
            if op == 'ptrtoint':
                return ptr2int(self.const(st, v[3][0]))
            if op in ('bitcast', 'addrspacecast'):
                return self.const(st, v[3][0])
        raise Unsupported('constant %r' % (v[:2],))

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return z3.BoolVal(False) if ty[1] == 1 else BV(0, ty[1])
        if k == 'p':
            return NULL
        if k == 'f':
            return z3.FPVal(0.0, z3.Float64() if ty[1] == 64 else z3.Float32())
        if k == 's':
            return [self.zero(t) for t in ty[3]]
        if k in ('a', 'vec'):
            return [self.zero(ty[3]) for _ in range(ty[1])]
        raise Unsupported('zero')

    def ev(self, st, v):
        if v[0] == 'v':
            try:
                return st.top.loc[v[1]]
            except KeyError:
                raise Unsupported('undefined local in ' + st.top.fn.dem)
        return self.const(st, v)

    # typed load/store
    def load(self, st, p, ty, loc, checked=False):
        k = ty[0]
        if k == 's':
            return [self.load(st, Ptr(p.obj, add(p.off, BV(o))), t, loc) for o, t in zip(ty[2], ty[3])]
        if k in ('a', 'vec'):
            return [self.load(st, Ptr(p.obj, add(p.off, BV(i * ty[2]))), ty[3], loc) for i in range(ty[1])]
        n = self.tsize(ty)
        if not checked and not self.access(st, p, BV(n), 'read', loc):
            raise Stop()
        v = self.mread(st, p.obj, p.off, n)
        if k == 'p':
            return self.to_ptr(st, v)
        v2 = self.as_bv(v)
        if k == 'i':
            if ty[1] == 1:
                return simp(z3.Extract(0, 0, v2) == BV(1, 1))
            if ty[1] != v2.size():
                return simp(z3.Extract(ty[1] - 1, 0, v2))
            return v2
        if k == 'f':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            return z3.fpBVToFP(v2, z3.Float64() if n == 8 else z3.Float32())
        raise Unsupported('load type')

    def to_ptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if is_c(v):
            if cval(v) == 0:
                return NULL
            return Ptr(None, v)
        # pattern addr + off
        for oid in list(st.mem):
            pass
        vs = set()
        self.collect_addr(v, vs)
        for name in vs:
            o = self.addr_objs(st).get(name)
            if o is not None:
                d = simp(v - o.addr)
                s2 = set()
                self.collect_addr(d, s2)
                if name not in s2:
                    return Ptr(o, d)
        h = self.opts.get('unknown_ptr')
        if h:
            return h(self, st, v)
        raise Unsupported('load of unknown pointer %s in %s' % (str(v)[:80], st.top.fn.dem if st.frames else ''))

    def addr_objs(self, st):
        return self._addr

    _addr = {}

    def collect_addr(self, t, out):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and not is_c(x):
                n = x.decl().name()
                if n.startswith('addr!'):
                    out.add(n)
            stack.extend(x.children())

    def tsize(self, ty):
        k = ty[0]
        if k == 'i':
            return (ty[1] + 7) // 8
        if k == 'p':
            return 8
        if k == 'f':
            return ty[1] // 8 if ty[1] != 80 else 16
        if k == 's':
            return ty[1]
        if k in ('a', 'vec'):
            return ty[1] * ty[2]
        raise Unsupported('size of %r' % (ty,))

    def store(self, st, p, ty, v, loc):
        k = ty[0]
        if k == 's':
            for o, t, x in zip(ty[2], ty[3], v):
                self.store(st, Ptr(p.obj, add(p.off, BV(o))), t, x, loc)
            return
        if k in ('a', 'vec'):
            for i in range(ty[1]):
                self.store(st, Ptr(p.obj, add(p.off, BV(i * ty[2]))), ty[3], v[i], loc)
            return
        n = self.tsize(ty)
        if not self.access(st, p, BV(n), 'write', loc, True):
            raise Stop()
        if k == 'i' and ty[1] != 8 * n and z3.is_bv(v):
            v = z3.ZeroExt(8 * n - ty[1], v)
        self.mwrite(st, p.obj, p.off, n, v)

    # ------------------------------------------------------------ running
    def call_entry(self, st, fn, args, retid=None, normal=None, unwind=None):
        f = Frame()
        f.fn = fn
        f.blk = 0
        f.idx = 0
        f.prev = -1
        f.loc = {}
        for a, v in zip(fn.args, args):
            f.loc[a['id']] = v
        f.retid = retid
        f.normal = normal
        f.unwind = unwind
        f.allocas = ()
        f.unroll = {}
        st.frames.append(f)
        if len(st.frames) > 200:
            raise Unsupported('recursion too deep')
        self.inlined[fn.dem] = self.inlined.get(fn.dem, 0) + 1

    def find_contract(self, fn):
        c = self.functions_seen.get(fn.name)
        if c is not None:
            return c[0]
        h = None
        for rx, hd in list(self.user_contracts) + self.contracts:
            if rx.search(fn.dem) or rx.search(fn.name):
                h = hd
                break
        self.functions_seen[fn.name] = (h,)
        return h

    def verify(self, fname, label=None):
        """run the driver function `fname` from an arbitrary state; collect obligations"""
        fn = self.m.fns[fname]
        self.cur_entry = label or fname
        st = State()
        args = []
        for a in fn.args:
            args.append(self.fresh_of(a['ty'], 'arg'))
        self.call_entry(st, fn, args)
        ends = self.explore([st], None)
        return ends

    def explore(self, work, stopper, limit_tag=None):
        """run all states to completion. stopper(st) -> tag or None, evaluated on block entry.
        returns list of (tag, state)"""
        out = []
        work = list(work)
        while work:
            st = work.pop()
            self.tick()
            while True:
                tag = stopper(st) if stopper else None
                if tag:
                    out.append((tag, st))
                    break
                if not st.frames:
                    self.stats['paths'] += 1
                    if self.stats['paths'] > self.opts['max_paths']:
                        raise Budget('path budget exhausted')
                    out.append(('end', st))
                    break
                f = st.top
                # loop header?
                if f.idx == 0 and f.blk in f.fn.loops() and f.prev not in f.fn.loops()[f.blk]:
                    nxt = self.enter_loop(st)
                    if nxt is not None:
                        work.extend(nxt)
                        break
                try:
                    forks = self.step_block(st)
                except Stop:
                    break
                if forks is None:
                    continue
                work.extend(forks)
                break
        return out

    def eval_pred(self, st, fn, args, value=False):
        """value of a predicate of the driver (a function of the module without side effects) in state st, as a Bool term"""
        s = st.copy()
        n0 = len(s.pc)
        s.frames = []
        s.nolog = True
        s.ghost = dict(s.ghost, trust=True)
        rec, dry = self.record, self.dry
        self.record, self.dry = False, True
        try:
            self.call_entry(s, fn, args)
            res = self.explore([s], None)
        finally:
            self.record, self.dry = rec, dry
        if value:
            r = None
            for tag, t in res:
                v = t.ghost.get('ret')
                r = v if r is None else z3.If(z3.And(*t.pc[n0:]), v, r)
            return simp(r)
        alts = []
        for tag, t in res:
            v = t.ghost.get('ret')
            alts.append(z3.And(*(t.pc[n0:] + [i2b(v)])))
        return simp(z3.Or(*alts)) if len(alts) != 1 else simp(alts[0])

    def step_block(self, st):
        """execute instructions until the block ends or a fork/call happens.
        returns None to continue with st, or a list of successor states"""
        while True:
            f = st.top
            insts = f.fn.blocks[f.blk]
            if f.idx == 0:
                # phis in parallel
                vals = []
                i = 0
                while insts[i]['op'] == 'phi':
                    ins = insts[i]
                    for b, v in ins['inc']:
                        if b == f.prev:
                            vals.append((ins['id'], self.ev(st, v)))
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                for k, v in vals:
                    f.loc[k] = v
                f.idx = i
            ins = insts[f.idx]
            self.stats['steps'] += 1
            op = ins['op']
            h = getattr(self, 'op_' + op, None)
            if h is None:
                raise Unsupported('instruction ' + op)
            r = h(st, ins)
            if r is None:
                f.idx += 1
                continue
            if r is True:  # control moved within st
                return None
            return r

    def goto(self, st, b):
        f = st.top
        f.prev = f.blk
        f.blk = b
        f.idx = 0
        return True

    # --------------------------------------------------------- instructions
    def op_br(self, st, i):
        if 'cond' not in i:
            return self.goto(st, i['succ'][0])
        c = simp(self.ev(st, i['cond']))
        if z3.is_true(c):
            return self.goto(st, i['succ'][0])
        if z3.is_false(c):
            return self.goto(st, i['succ'][1])
        t = self.feasible(st, c)
        if not t:
            if st.soft:
                self.assume(st, z3.Not(c))
            return self.goto(st, i['succ'][1])
        e = self.feasible(st, z3.Not(c))
        if not e:
            if st.soft:
                self.assume(st, c)
            return self.goto(st, i['succ'][0])
        # undecided: is this an exit test of a loop being unrolled?
        self.unroll_guard(st, i['succ'])
        s2 = st.copy()
        self.assume(st, c)
        self.assume(s2, z3.Not(c))
        l = i.get('loc')
        if l:
            st.trace = st.trace + (l + ' [true]',)
            s2.trace = s2.trace + (l + ' [false]',)
        self.goto(st, i['succ'][0])
        self.goto(s2, i['succ'][1])
        return [s2, st]

    def unroll_guard(self, st, succs):
        for f in st.frames:
            pass
        f = st.top
        for h, snap in list(f.unroll.items()):
            body = f.fn.loops()[h]
            if f.blk in body and any(s not in body for s in succs):
                raise UnrollFail(snap, h)

    def op_switch(self, st, i):
        v = self.ev(st, i['cond'])
        if z3.is_bool(v):
            v = b2i(v, 1)
        v = simp(v)
        if is_c(v):
            for c, b in i['cases']:
                if int(c) & ((1 << v.size()) - 1) == cval(v):
                    return self.goto(st, b)
            return self.goto(st, i['def'])
        self.unroll_guard(st, [i['def']] + [c[1] for c in i['cases']])
        out = []
        bydest = {}
        for c, b in i['cases']:
            bydest.setdefault(b, []).append(v == BV(int(c), v.size()))
        allc = []
        for b, cs in bydest.items():
            cc = z3.Or(*cs) if len(cs) > 1 else cs[0]
            allc.append(cc)
            if self.feasible(st, cc):
                # phi nodes distinguish only by predecessor block so merging cases is fine
                s2 = st.copy()
                self.assume(s2, cc)
                self.goto(s2, b)
                out.append(s2)
        d = z3.Not(z3.Or(*allc))
        if self.feasible(st, d):
            s2 = st.copy()
            self.assume(s2, d)
            self.goto(s2, i['def'])
            out.append(s2)
        return out

    def op_ret(self, st, i):
        v = self.ev(st, i['ops'][0]) if i['ops'] else None
        return self.do_ret(st, v)

    def pop_frame(self, st):
        f = st.frames.pop()
        if f.allocas:
            st.dead = st.dead | frozenset(f.allocas)
            for a in f.allocas:
                st.mem.pop(a, None)
        return f

    def do_ret(self, st, v):
        f = self.pop_frame(st)
        if not st.frames:
            st.ghost['ret'] = v
            return True
        c = st.top
        if f.retid is not None and v is not None:
            c.loc[f.retid] = v
        if f.normal is not None:
            self.goto(st, f.normal)
        else:
            c.idx += 1
        return True

    def op_unreachable(self, st, i):
        self.oblige(st, z3.BoolVal(False), 'unreachable', '', i.get('loc'))
        raise Stop()

    def throw(self, st, what, obj=None, loc=None):
        """unwind"""
        if not self.opts['allow_throw'] and not self.catchable(st):
            self.oblige(st, z3.BoolVal(False), 'no-throw', what, loc)
            raise Stop()
        st.exc = (what, obj)
        st.excloc = loc
        first = True
        while st.frames:
            f = st.top
            if first:
                # the throwing call instruction belongs to the top frame
                ins = f.fn.blocks[f.blk][f.idx]
                first = False
                if ins['op'] == 'invoke':
                    self.goto(st, ins['unwind'])
                    return True
            fr = self.pop_frame(st)
            if fr.unwind is not None and st.frames:
                self.goto(st, fr.unwind)
                return True
        return self.escaped(st)

    def catchable(self, st):
        """is there a landing pad with a catch clause on the stack?"""
        ins = None
        for k in range(len(st.frames) - 1, -1, -1):
            f = st.frames[k]
            if k == len(st.frames) - 1:
                ins = f.fn.blocks[f.blk][f.idx]
                uw = ins.get('unwind') if ins['op'] == 'invoke' else None
            else:
                uw = st.frames[k + 1].unwind
            if uw is not None:
                for x in f.fn.blocks[uw]:
                    if x['op'] == 'landingpad' and x.get('ops'):
                        return True
        return False

    def escaped(self, st):
        what = st.exc[0] if st.exc else '?'
        if not self.opts['allow_throw']:
            self.oblige(st, z3.BoolVal(False), 'no-throw', what, getattr(st, 'excloc', None))
            raise Stop()
        st.ghost['threw'] = what
        return True

    def op_landingpad(self, st, i):
        eo = Obj('exception', BV(0), 'undef')
        sel = self.selector(st, i.get('ops') or [])
        st.top.loc[i['id']] = [Ptr(eo, BV(0)), sel]
        return None

    ANC = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
           '_ZTISt9exception': [], '_ZTISt8bad_cast': ['_ZTISt9exception']}
    for _n in ('12length_error', '12out_of_range', '16invalid_argument', '12domain_error'):
        ANC['_ZTISt' + _n] = ['_ZTISt11logic_error', '_ZTISt9exception']
    for _n in ('11range_error', '14overflow_error', '15underflow_error'):
        ANC['_ZTISt' + _n] = ['_ZTISt13runtime_error', '_ZTISt9exception']

    def typeid(self, name):
        self._tids = getattr(self, '_tids', {})
        return BV(self._tids.setdefault(name, len(self._tids) + 1), 32)

    def selector(self, st, clauses):
        """the selector the personality routine computes for the exception in flight"""
        what = st.exc[0] if st.exc else '?'
        m = re.match(r'(?:std::__throw_|_ZSt\d+__throw_)(\w+)', what)
        if m:
            n = re.sub(r'_fmt$', '', m.group(1))
            what = '_ZTISt%d%s' % (len(n), n)
        for c in clauses:
            if c[0] == 'null':
                return self.typeid('null')
            if c[0] != 'g':
                return self.fresh(32, 'sel')
            if c[1] == what or c[1] in self.ANC.get(what, ()):
                return self.typeid(c[1])
            if what not in self.ANC or (c[1] not in self.ANC and False):
                return self.fresh(32, 'sel')
        return BV(0, 32)

    def op_resume(self, st, i):
        while st.frames:
            fr = self.pop_frame(st)
            if fr.unwind is not None and st.frames:
                self.goto(st, fr.unwind)
                return True
        return self.escaped(st)

    def op_alloca(self, st, i):
        n = self.ev(st, i['cnt'])
        if n.size() < 64:
            n = z3.ZeroExt(64 - n.size(), n)
        size = simp(n * BV(i['esz']))
        o = self.new_obj(st, 'local_%d' % i['id'], size, 'stack')
        self._addr[o.addr.decl().name()] = o
        st.top.allocas = st.top.allocas + (o.id,)
        st.top.loc[i['id']] = Ptr(o, BV(0))

    def op_load(self, st, i):
        p = self.ev(st, i['ops'][0])
        st.top.loc[i['id']] = self.load(st, p, i['ty'], i.get('loc'))

    def op_store(self, st, i):
        v = self.ev(st, i['ops'][0])
        p = self.ev(st, i['ops'][1])
        self.store(st, p, i['sty'], v, i.get('loc'))

    def op_getelementptr(self, st, i):
        p = self.ev(st, i['base'])
        if i.get('bad'):
            raise Unsupported('gep')
        off = BV(int(i['off']))
        for v, w, sc in i['idx']:
            x = self.ev(st, v)
            if z3.is_bool(x):
                x = b2i(x, w)
            if w < 64:
                x = z3.SignExt(64 - w, x)
            if int(sc) > 1 and i.get('inb') and not is_c(simp(x)) and self.opts['check_overflow']:
                lim = (1 << 63) // int(sc)
                self.oblige(st, z3.And(x < BV(lim), x >= BV(-lim)), 'pointer-arithmetic-overflow', '', i.get('loc'))
            x = x * BV(int(sc))
            off = off + x
        off = simp(off)
        st.top.loc[i['id']] = Ptr(p.obj, add(p.off, off))

    def op_icmp(self, st, i):
        a = self.ev(st, i['ops'][0])
        b = self.ev(st, i['ops'][1])
        st.top.loc[i['id']] = self.icmp(st, i['pred'], a, b)

    def icmp(self, st, pred, a, b):
        if isinstance(a, list):
            raise Unsupported('vector icmp')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.obj is b.obj:
                if a.obj is None:
                    x, y = a.off, b.off
                else:
                    x, y = a.off, b.off
                    pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
                if st.clog is not None:
                    st.clog.append((x, y, True, pred))
                return self.icmp_bv(pred, x, y)
            if a.obj is None or b.obj is None or True:
                if pred == 'eq':
                    if (a.obj is None and is_c(a.off) and cval(a.off) == 0) or (b.obj is None and is_c(b.off) and cval(b.off) == 0) or (a.obj and b.obj):
                        return z3.BoolVal(False)
                if pred == 'ne':
                    if (a.obj is None and is_c(a.off) and cval(a.off) == 0) or (b.obj is None and is_c(b.off) and cval(b.off) == 0) or (a.obj and b.obj):
                        return z3.BoolVal(True)
                return self.icmp_bv(pred, ptr2int(a), ptr2int(b))
        if z3.is_bool(a) or z3.is_bool(b):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            a, b = b2i(a, 1), b2i(b, 1)
        if pred in ('eq', 'ne') and is_c(b) and cval(b) in (0, 1):
            c = boolish(a)
            if c is not None:
                return simp(c if (cval(b) == 1) == (pred == 'eq') else z3.Not(c))
        if st.clog is not None:
            st.clog.append((a, b, False, pred))
        return self.icmp_bv(pred, a, b)

    def icmp_bv(self, pred, a, b):
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simp(r)

    def op_fcmp(self, st, i):
        a = self.ev(st, i['ops'][0])
        b = self.ev(st, i['ops'][1])
        p = i['pred']
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if p == 'ord':
            r = z3.Not(un)
        elif p == 'uno':
            r = un
        elif p == 'true':
            r = z3.BoolVal(True)
        elif p == 'false':
            r = z3.BoolVal(False)
        else:
            k = p[1:]
            if k == 'ne':
                r = z3.Not(z3.fpEQ(a, b))
                if p[0] == 'o':
                    r = z3.And(r, z3.Not(un))
                else:
                    r = z3.Or(r, un)
            else:
                r = base[k](a, b)
                if p[0] == 'u':
                    r = z3.Or(r, un)
        st.top.loc[i['id']] = simp(r)

    def op_fneg(self, st, i):
        st.top.loc[i['id']] = z3.fpNeg(self.ev(st, i['ops'][0]))

    def fbin(self, st, i, f):
        a = self.ev(st, i['ops'][0])
        b = self.ev(st, i['ops'][1])
        st.top.loc[i['id']] = simp(f(z3.RNE(), a, b))

    def op_fadd(self, st, i):
        self.fbin(st, i, z3.fpAdd)

    def op_fsub(self, st, i):
        self.fbin(st, i, z3.fpSub)

    def op_fmul(self, st, i):
        self.fbin(st, i, z3.fpMul)

    def op_fdiv(self, st, i):
        self.fbin(st, i, z3.fpDiv)

    def fp_range(self, st, t, depth=0):
        """interval of a floating-point term that is then neither NaN nor infinite, or None: IEEE operations rounded to nearest are
        monotone in each operand, so the end points of the result come from the end points of the operands"""
        if depth > 40:
            return None
        single = t.sort() == z3.Float32()
        if not single and t.sort() != z3.Float64():
            return None

        def rnd(x):
            x = float(x)
            if single:
                import struct
                try:
                    x = struct.unpack('<f', struct.pack('<f', x))[0]
                except OverflowError:
                    return None
            return None if x != x or x in (float('inf'), float('-inf')) else x

        def hull(xs):
            xs = [rnd(x) for x in xs]
            return None if None in xs else (min(xs), max(xs))
        k = t.decl().kind()
        r = None
        try:
            if isinstance(t, z3.FPNumRef):
                if t.isNaN() or t.isInf():
                    return None
                v = z3.simplify(z3.fpToIEEEBV(t)).as_long()
                import struct
                v = struct.unpack('<f', struct.pack('<I', v))[0] if single else struct.unpack('<d', struct.pack('<Q', v))[0]
                return (v, v)
            if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV):
                a, b = self.fp_range(st, t.arg(1), depth + 1), self.fp_range(st, t.arg(2), depth + 1)
                if a and b:
                    if k == z3.Z3_OP_FPA_ADD:
                        r = hull([a[0] + b[0], a[1] + b[1]])
                    elif k == z3.Z3_OP_FPA_SUB:
                        r = hull([a[0] - b[1], a[1] - b[0]])
                    elif k == z3.Z3_OP_FPA_MUL:
                        r = hull([x * y for x in a for y in b])
                    elif b[0] > 0 or b[1] < 0:
                        r = hull([x / y for x in a for y in b])
            elif k == z3.Z3_OP_FPA_NEG:
                a = self.fp_range(st, t.arg(0), depth + 1)
                r = a and (-a[1], -a[0])
            elif k == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
                a = self.fp_range(st, t.arg(1), depth + 1)
                import math
                r = a and (float(math.floor(a[0])), float(math.ceil(a[1])))
            elif k == z3.Z3_OP_ITE:
                a, b = self.fp_range(st, t.arg(1), depth + 1), self.fp_range(st, t.arg(2), depth + 1)
                r = a and b and (min(a[0], b[0]), max(a[1], b[1]))
            elif k in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) and t.num_args() == 2:
                x = t.arg(1)
                if z3.is_fp(x):
                    a = self.fp_range(st, x, depth + 1)
                    r = a and hull(a)
                elif z3.is_bv(x):
                    lz = 0
                    if x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                        lz = x.arg(0).size()
                    elif x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                        lz = x.size() - x.arg(0).size()
                    w = x.size()
                    if k == z3.Z3_OP_FPA_TO_FP_UNSIGNED or lz:
                        r = hull([0, 2 ** (w - lz) - 1])
                    else:
                        r = hull([-2 ** (w - 1), 2 ** (w - 1) - 1])
        except (OverflowError, ZeroDivisionError):
            r = None
        lo, hi = r if r else (None, None)
        tid = t.get_id()
        todo = list(st.pc)
        while todo:
            c = todo.pop()
            if z3.is_and(c):
                todo += c.children()
                continue
            kk = c.decl().kind()
            if kk in (z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_GT):
                a, b = c.arg(0), c.arg(1)
                if kk in (z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_GT):
                    a, b = b, a
                if b.get_id() == tid and isinstance(a, z3.FPNumRef):
                    v = self.fp_range(st, a)
                    lo = v[0] if lo is None else max(lo, v[0])
                elif a.get_id() == tid and isinstance(b, z3.FPNumRef):
                    v = self.fp_range(st, b)
                    hi = v[1] if hi is None else min(hi, v[1])
        return (lo, hi) if lo is not None and hi is not None else None

    def fp_fits(self, st, a, lo, hi):
        r = self.fp_range(st, a)
        return r is not None and lo <= r[0] and r[1] < hi

    def op_fptoui(self, st, i):
        a = self.ev(st, i['ops'][0])
        w = i['ty'][1]
        if self.opts['check_overflow'] and not self.fp_fits(st, a, 0.0, 2.0 ** w):
            lim = z3.FPVal(2.0 ** w, a.sort())
            self.oblige(st, z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpGT(a, z3.FPVal(-1.0, a.sort())), z3.fpLT(a, lim)), 'float-to-int-range', '', i.get('loc'))
        st.top.loc[i['id']] = z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))

    def op_fptosi(self, st, i):
        a = self.ev(st, i['ops'][0])
        w = i['ty'][1]
        if self.opts['check_overflow'] and not self.fp_fits(st, a, -2.0 ** (w - 1), 2.0 ** (w - 1)):
            lim = z3.FPVal(2.0 ** (w - 1), a.sort())
            self.oblige(st, z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpGEQ(a, z3.FPVal(-(2.0 ** (w - 1)), a.sort())), z3.fpLT(a, lim)), 'float-to-int-range', '', i.get('loc'))
        st.top.loc[i['id']] = z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w))

    def fsort(self, ty):
        return z3.Float64() if ty[1] == 64 else z3.Float32() if ty[1] == 32 else z3.FPSort(15, 64)

    def op_uitofp(self, st, i):
        a = self.ev(st, i['ops'][0])
        if z3.is_bool(a):
            a = b2i(a, 8)
        st.top.loc[i['id']] = simp(z3.fpToFPUnsigned(z3.RNE(), a, self.fsort(i['ty'])))

    def op_sitofp(self, st, i):
        a = self.ev(st, i['ops'][0])
        st.top.loc[i['id']] = simp(z3.fpSignedToFP(z3.RNE(), a, self.fsort(i['ty'])))

    def op_fpext(self, st, i):
        st.top.loc[i['id']] = simp(z3.fpToFP(z3.RNE(), self.ev(st, i['ops'][0]), self.fsort(i['ty'])))

    op_fptrunc = op_fpext

    def op_bitcast(self, st, i):
        v = self.ev(st, i['ops'][0])
        ty = i['ty']
        if isinstance(v, Ptr) or isinstance(v, list):
            if ty[0] == 'p':
                st.top.loc[i['id']] = v
                return
            raise Unsupported('bitcast')
        if ty[0] == 'f' and z3.is_bv(v):
            v = z3.fpBVToFP(v, self.fsort(ty))
        elif ty[0] == 'i' and z3.is_fp(v):
            v = z3.fpToIEEEBV(v)
        st.top.loc[i['id']] = v

    def op_freeze(self, st, i):
        st.top.loc[i['id']] = self.ev(st, i['ops'][0])

    def op_select(self, st, i):
        c = simp(self.ev(st, i['ops'][0]))
        a = self.ev(st, i['ops'][1])
        b = self.ev(st, i['ops'][2])
        if z3.is_true(c):
            st.top.loc[i['id']] = a
        elif z3.is_false(c):
            st.top.loc[i['id']] = b
        elif isinstance(a, Ptr):
            if a.obj is b.obj:
                st.top.loc[i['id']] = Ptr(a.obj, simp(z3.If(c, a.off, b.off)))
                return
            t = self.feasible(st, c)
            e = self.feasible(st, z3.Not(c))
            if t and e:
                s2 = st.copy()
                self.assume(st, c)
                self.assume(s2, z3.Not(c))
                st.top.loc[i['id']] = a
                s2.top.loc[i['id']] = b
                st.top.idx += 1
                s2.top.idx += 1
                return [s2, st]
            st.top.loc[i['id']] = a if t else b
        elif isinstance(a, list):
            raise Unsupported('aggregate select')
        else:
            st.top.loc[i['id']] = z3.If(c, a, b) if not (z3.is_bool(a)) else simp(z3.If(c, a, b))

    def binop(self, st, i):
        a = self.ev(st, i['ops'][0])
        b = self.ev(st, i['ops'][1])
        if isinstance(a, list):
            raise Unsupported('vector arithmetic')
        if z3.is_bool(a):
            op = i['op']
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if r is None:
                raise Unsupported('i1 ' + op)
            st.top.loc[i['id']] = simp(r(a, b))
            return None, None
        return a, b

    def setv(self, st, i, v):
        st.top.loc[i['id']] = simp(v)

    def op_add(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        if i.get('nsw') and self.opts['check_overflow']:
            self.oblige(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'no-signed-overflow', 'add', i.get('loc'))
        self.setv(st, i, a + b)

    def op_sub(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        if i.get('nsw') and self.opts['check_overflow']:
            self.oblige(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'no-signed-overflow', 'sub', i.get('loc'))
        self.setv(st, i, a - b)

    def op_mul(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        if i.get('nsw') and self.opts['check_overflow']:
            self.oblige(st, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), 'no-signed-overflow', 'mul', i.get('loc'))
        self.setv(st, i, a * b)

    def divchk(self, st, i, a, b, signed):
        g = b != 0
        if signed:
            g = z3.And(g, z3.Not(z3.And(a == BV(1 << (a.size() - 1), a.size()), b == BV(-1, a.size()))))
        self.oblige(st, g, 'division', i['op'], i.get('loc'))

    def op_udiv(self, st, i):
        a, b = self.binop(st, i)
        self.divchk(st, i, a, b, False)
        self.setv(st, i, z3.UDiv(a, b))

    def op_urem(self, st, i):
        a, b = self.binop(st, i)
        self.divchk(st, i, a, b, False)
        self.setv(st, i, z3.URem(a, b))

    def op_sdiv(self, st, i):
        a, b = self.binop(st, i)
        self.divchk(st, i, a, b, True)
        if i.get('exact') and is_c(b) and cval(b) & (cval(b) - 1) == 0:
            sh = cval(b).bit_length() - 1
            self.setv(st, i, a >> sh)
            return
        self.setv(st, i, a / b)

    def op_srem(self, st, i):
        a, b = self.binop(st, i)
        self.divchk(st, i, a, b, True)
        self.setv(st, i, z3.SRem(a, b))

    def op_and(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        c, d = boolish(a), boolish(b)
        if c is not None and d is not None:
            return self.setv(st, i, b2i(simp(z3.And(c, d)), a.size()))
        self.setv(st, i, a & b)

    def op_or(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        c, d = boolish(a), boolish(b)
        if c is not None and d is not None:
            return self.setv(st, i, b2i(simp(z3.Or(c, d)), a.size()))
        self.setv(st, i, a | b)

    def op_xor(self, st, i):
        a, b = self.binop(st, i)
        if a is None:
            return
        self.setv(st, i, a ^ b)

    def shchk(self, st, i, a, b):
        if is_c(b) and cval(b) < a.size():
            return
        self.oblige(st, z3.ULT(b, BV(a.size(), a.size())), 'shift-in-range', i['op'], i.get('loc'))

    def op_shl(self, st, i):
        a, b = self.binop(st, i)
        self.shchk(st, i, a, b)
        self.setv(st, i, a << b)

    def op_lshr(self, st, i):
        a, b = self.binop(st, i)
        self.shchk(st, i, a, b)
        self.setv(st, i, z3.LShR(a, b))

    def op_ashr(self, st, i):
        a, b = self.binop(st, i)
        self.shchk(st, i, a, b)
        self.setv(st, i, a >> b)

    def op_zext(self, st, i):
        a = self.ev(st, i['ops'][0])
        w = i['ty'][1]
        if z3.is_bool(a):
            self.setv(st, i, b2i(a, w))
        else:
            self.setv(st, i, z3.ZeroExt(w - a.size(), a))

    def op_sext(self, st, i):
        a = self.ev(st, i['ops'][0])
        w = i['ty'][1]
        if z3.is_bool(a):
            self.setv(st, i, z3.If(a, BV(-1, w), BV(0, w)))
        else:
            self.setv(st, i, z3.SignExt(w - a.size(), a))

    def op_trunc(self, st, i):
        a = self.ev(st, i['ops'][0])
        w = i['ty'][1]
        if w == 1:
            st.top.loc[i['id']] = simp(i2b(simp(z3.Extract(0, 0, a))))
        else:
            self.setv(st, i, z3.Extract(w - 1, 0, a))

    def op_ptrtoint(self, st, i):
        p = self.ev(st, i['ops'][0])
        v = ptr2int(p)
        if p.obj is not None:
            self._addr[p.obj.addr.decl().name()] = p.obj
        if i['ty'][1] < 64:
            v = z3.Extract(i['ty'][1] - 1, 0, v)
        self.setv(st, i, v)

    def op_inttoptr(self, st, i):
        st.top.loc[i['id']] = self.to_ptr(st, self.ev(st, i['ops'][0]))

    def op_extractvalue(self, st, i):
        v = self.ev(st, i['ops'][0])
        for k in i['ix']:
            v = v[k]
        st.top.loc[i['id']] = v

    def op_insertvalue(self, st, i):
        v = self.ev(st, i['ops'][0])
        x = self.ev(st, i['ops'][1])

        def ins(v, ix):
            v = list(v)
            if len(ix) == 1:
                v[ix[0]] = x
            else:
                v[ix[0]] = ins(v[ix[0]], ix[1:])
            return v
        st.top.loc[i['id']] = ins(v, i['ix'])

    def op_fence(self, st, i):
        return None

    def op_atomicrmw(self, st, i):
        p = self.ev(st, i['ops'][0])
        v = self.ev(st, i['ops'][1])
        old = self.load(st, p, i['ty'], i.get('loc'))
        new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v}.get(i['rmw'])
        if new is None:
            raise Unsupported('atomicrmw')
        self.store(st, p, i['ty'], simp(new()), i.get('loc'))
        st.top.loc[i['id']] = old

    def op_call(self, st, i):
        return self.do_call(st, i, None, None)

    def op_invoke(self, st, i):
        return self.do_call(st, i, i['normal'], i['unwind'])

    def do_call(self, st, i, normal, unwind):
        cal = i['callee']
        if cal[0] == 'g':
            fn = self.m.fns.get(cal[1])
        elif cal[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            p = self.ev(st, cal)
            if p.obj is None or p.obj.kind != 'fn':
                h = self.opts.get('indirect_call')
                if h:
                    return h(self, st, i, p)
                self.oblige(st, z3.BoolVal(False), 'indirect-call', '', i.get('loc'))
                raise Stop()
            fn = p.obj.fn
        if fn is None:
            raise Unsupported('call of unknown')
        args = [None if a[0] == 'md' else self.ev(st, a) for a in i['args']]
        if i.get('byval'):
            for k, n in i['byval']:
                o = self.new_obj(st, 'byval', BV(n), 'stack')
                self.mcopy(st, o, BV(0), args[k].obj, args[k].off, BV(n))
                args[k] = Ptr(o, BV(0))
        h = self.find_contract(fn)
        if h is not None:
            self.contract_used[fn.dem] = self.contract_used.get(fn.dem, 0) + 1
            r = h(self, st, fn, args, i)
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'redirect':  # the contract is a function of the driver
                self.call_entry(st, r[1], args, i['id'] if i['ty'][0] != 'v' else None, normal, unwind)
                return True
            return self.finish_call(st, i, normal, r)
        if fn.blocks is None:
            if self.on_unhandled:
                r = self.on_unhandled(self, st, fn, args, i)
                return self.finish_call(st, i, normal, r)
            raise Unsupported('no contract for external function ' + fn.dem)
        self.call_entry(st, fn, args, i['id'] if i['ty'][0] != 'v' else None, normal, unwind)
        return True

    def finish_call(self, st, i, normal, r):
        """r: value | ('fork', [(state, value)]) | 'moved' | 'stop'"""
        def fin(s, v):
            if v is not None and i['ty'][0] != 'v':
                s.top.loc[i['id']] = v
            if normal is not None:
                self.goto(s, normal)
            else:
                s.top.idx += 1
        if isinstance(r, tuple) and r and r[0] == 'fork':
            out = []
            for s, v in r[1]:
                if isinstance(v, str) and v == 'moved':
                    out.append(s)
                    continue
                fin(s, v)
                out.append(s)
            return out
        if isinstance(r, str) and r == 'moved':
            return [st]
        if isinstance(r, str) and r == 'stop':
            raise Stop()
        fin(st, r)
        return True

    # ------------------------------------------------------------ loops
    def enter_loop(self, st):
        """called at a loop header entered from outside. Returns list of states to continue with, or None (continue concretely)."""
        f = st.top
        h = f.blk
        mode = self.opts.get('loop_mode')
        m = mode(self, st, f.fn, h) if mode else None
        if m == 'unroll':
            return None
        if m != 'inv':
            snap = st.copy()
            # try concrete unrolling in isolation
            rec = self.record
            try:
                res = self.try_unroll(st, h)
                if res is not None:
                    return res
            finally:
                self.record = rec
            st = snap
            n = st.ghost.get('unroll')
            if n:
                return self.split_unroll(st, h, n)
        return self.inv_loop(st, h)

    def try_unroll(self, st, h):
        """Unroll while the loop's own exit tests are decided. Returns exit states or None when not concretely bounded"""
        depth = len(st.frames)
        body = st.top.fn.loops()[h]
        saved_rec = self.record
        self.record = False
        s0 = st.copy()
        count = [0]

        def probe(s):
            if len(s.frames) < depth:
                return 'exit'
            if len(s.frames) == depth:
                f = s.top
                if f.idx == 0 and f.blk not in body:
                    return 'exit'
                if f.idx == 0 and f.blk == h and f.prev in body:
                    return 'back'
            return None
        # probing run: single states must have decided exits
        cur = [s0]
        iters = 0
        exits = []
        try:
            while cur:
                iters += 1
                if iters > self.opts['max_unroll']:
                    return None
                nxt = []
                for s in cur:
                    # (re)start at header
                    w = s
                    f = w.top
                    f.unroll = dict(f.unroll)
                    f.unroll[h] = True
                    # execute header manually so that enter_loop is not re-triggered
                    r = self.explore_from_header(w, probe)
                    if len({tag for tag, _ in r}) > 1:
                        return None  # one iteration both leaves and continues: the exit is not decided
                    for tag, t in r:
                        if tag == 'back':
                            nxt.append(t)
                        elif tag == 'exit':
                            exits.append(t)
                if len(nxt) > 24:
                    return None
                cur = nxt
        except UnrollFail as e:
            if e.h in (h,):
                return None
            raise
        finally:
            self.record = saved_rec
        if not saved_rec:
            for t in exits:
                for f in t.frames:
                    if len(t.frames) >= depth and f is t.frames[depth - 1]:
                        f.unroll = {k: v for k, v in f.unroll.items() if k != h}
            return exits
        # replay, recording obligations
        cur = [st.copy()]
        exits = []
        while cur:
            nxt = []
            for s in cur:
                s.top.unroll = dict(s.top.unroll)
                s.top.unroll[h] = True
                for tag, t in self.explore_from_header(s, probe):
                    (nxt if tag == 'back' else exits).append(t)
            cur = nxt
        for t in exits:
            if len(t.frames) >= depth:
                f = t.frames[depth - 1]
                f.unroll = {k: v for k, v in f.unroll.items() if k != h}
        return exits

    def split_unroll(self, st, h, n):
        """Unroll with case splits on the exit tests; the obligation 'unwinding' says that no iteration beyond n is possible."""
        depth = len(st.frames)
        body = st.top.fn.loops()[h]

        def probe(s):
            if len(s.frames) < depth:
                return 'exit'
            if len(s.frames) == depth:
                f = s.top
                if f.idx == 0 and f.blk not in body:
                    return 'exit'
                if f.idx == 0 and f.blk == h and f.prev in body:
                    return 'back'
            return None
        saved = st.top.unroll
        cur, exits = [st], []
        for k in range(n + 1):
            nxt = []
            for s in cur:
                for tag, t in self.explore_from_header(s, probe):
                    (nxt if tag == 'back' else exits).append(t)
            cur = nxt
            if not cur:
                break
        for s in cur:
            self.oblige(s, z3.BoolVal(False), 'unwinding', 'more than %d iterations' % n)
        return exits

    def explore_from_header(self, st, stopper):
        """execute the header block of st, then explore with stopper"""
        try:
            forks = self.step_block(st)
        except Stop:
            return []
        res = []
        states = [st] if forks is None else forks
        r = self.explore(states, stopper)
        res.extend((t, s) for t, s in r if t != 'end')
        self._exit_terminal.extend(s for t, s in r if t == 'end')
        for t, s in r:
            if t == 'end':
                res.append(('exit', s))
        return res

    # ---- invariant mode
    def loop_vars_of_phis(self, st, h):
        return [ins['id'] for ins in st.top.fn.blocks[h] if ins['op'] == 'phi']

    def inv_loop(self, st, h):
        depth = len(st.frames)
        fn = st.top.fn
        body = fn.loops()[h]
        phis = self.loop_vars_of_phis(st, h)
        nphi = len(phis)
        # evaluate phis for entry
        f = st.top
        entry = {}
        for ins in fn.blocks[h][:nphi]:
            for b, v in ins['inc']:
                if b == f.prev:
                    entry[('phi', ins['id'])] = self.ev(st, v)
        record = self.record
        mark = (self.fresh_n, Obj._n)

        def stopper(s):
            if len(s.frames) < depth:
                return 'exit'
            if len(s.frames) == depth:
                g = s.top
                if g.idx == 0 and g.blk not in body:
                    return 'exit'
                if g.idx == 0 and g.blk == h and g.prev in body:
                    return 'back'
            return None

        est = st
        # pointer variants: key -> list of target objects (None = null)
        ptrvar = {}
        for k, v in entry.items():
            if isinstance(v, Ptr):
                ptrvar[k] = [v.obj]
        cells = {}  # (obj,off,n) const cells written
        ranges = {}  # obj -> whole-object havoc
        base_ids = set(est.mem)

        def cell_entry(key):
            _, o, off, n = key
            s = est.copy()
            s.nolog = True
            return self.mread(s, o, BV(off), n, log=False)

        def make_header(variant):
            """state at header with loop variables havocked"""
            s = est.copy()
            vals = {}
            g = s.top
            for pid in phis:
                k = ('phi', pid)
                e = entry[k]
                if isinstance(e, Ptr):
                    o = variant.get(k, e.obj)
                    vals[k] = NULL if o is None else Ptr(o, self.fresh(64, 'lp'))
                elif isinstance(e, list):
                    vals[k] = [self.havoc_like(x) for x in e]
                else:
                    vals[k] = self.havoc_like(e)
                g.loc[pid] = vals[k]
            for o in ranges:
                self.log_write(s, o, self.fresh(64, 'anyoff'), o.size)
                mm = s.mem[o.id]
                keep = {}
                b = Base(self.freshname('loop_' + o.name), o.size)
                # keep pointer cells that are not written at constant offsets
                for koff, (n, v) in mm.cells.items():
                    if isinstance(v, (Ptr, tuple)) and ('cell', o, koff, n) not in cells:
                        keep[koff] = (n, v)
                s.mem[o.id] = Mem(keep, b)
            for key in cells:
                _, o, off, n = key
                e = cells[key]
                if isinstance(e, Ptr):
                    oo = variant.get(key, e.obj)
                    v = NULL if oo is None else Ptr(oo, self.fresh(64, 'lp'))
                else:
                    v = self.havoc_like(e)
                self.mwrite(s, o, BV(off), n, v, log=True)
                vals[key] = v
            # facts about modified objects are about old contents: they capture snapshots, keep them
            g.idx = nphi
            g.unroll = {}
            for pf, arg in est.ghost.get('loopassume', ()):  # a quantified precondition of the driver, at this state
                self.assume(s, self.eval_pred(s, pf, [arg]), soft=True)
            return s, vals

        def vals_at_back(s):
            g = s.top
            vals = {}
            for ins in fn.blocks[h][:nphi]:
                for b, v in ins['inc']:
                    if b == g.prev:
                        vals[('phi', ins['id'])] = self.ev(s, v)
            for key in cells:
                _, o, off, n = key
                s.nolog = True
                vals[key] = self.mread(s, o, BV(off), n, log=False)
                s.nolog = False
            return vals

        def variants():
            keys = [k for k in ptrvar if len(ptrvar[k]) > 1]
            for combo in itertools.product(*[ptrvar[k] for k in keys]):
                yield dict(zip(keys, combo))

        def run_body(s):
            """paths of one iteration; a path back to the header whose exit test is decided is followed out of the loop"""
            out = []
            for tag, t in self.explore_from_header_body(s, stopper):
                if tag == 'back':
                    w = t.copy()
                    try:
                        r = self.step_block(w)
                    except Stop:
                        continue
                    if r is not None and len(r) == 1:
                        w, r = r[0], None
                    if r is None and len(w.frames) == depth and w.top.idx == 0 and w.top.blk not in body:
                        out.append(('exit', w))
                        continue
                out.append((tag, t))
            return out

        # --- discover what the loop modifies
        self.record = False
        saved_dry = self.dry
        self.dry = True
        terms = []
        incs = {}
        try:
            for rounds in range(12):
                changed = False
                clog = []
                incs = {}
                lasthv = []
                for var in variants():
                    s, hv = make_header(var)
                    lasthv.append(hv)
                    s.wlog = []
                    s.clog = clog
                    res = run_body(s)
                    for tag, t in res:
                        if tag != 'back':
                            continue
                        for (o, off, ln) in (t.wlog or []):
                            if o.id not in base_ids or o.id not in est.mem:
                                continue
                            if is_c(off) and is_c(ln) and cval(ln) in (1, 2, 4, 8):
                                key = ('cell', o, cval(off), cval(ln))
                                if key in cells:
                                    continue
                                e = cell_entry(key)
                                isptr = isinstance(e, Ptr)
                                if o in ranges and not isptr:
                                    continue
                                if any(c[1] is o and c[2] < cval(off) + cval(ln) and cval(off) < c[2] + c[3] for c in cells):
                                    for c in [c for c in cells if c[1] is o]:
                                        if not isinstance(cells[c], Ptr):
                                            del cells[c]
                                            ptrvar.pop(c, None)
                                    ranges[o] = True
                                else:
                                    cells[key] = e
                                    if isptr:
                                        ptrvar[key] = [e.obj]
                                changed = True
                            else:
                                if o not in ranges:
                                    ranges[o] = True
                                    for c in [c for c in cells if c[1] is o]:
                                        if not isinstance(cells[c], Ptr):
                                            del cells[c]
                                    changed = True
                        if tag == 'back':
                            for gk in set(t.ghost) | set(est.ghost):
                                if isinstance(gk, tuple) and t.ghost.get(gk) != est.ghost.get(gk):
                                    raise Unsupported('abstract container modified in a loop')
                            bv = vals_at_back(t)
                            for k, v in bv.items():
                                if isinstance(v, Ptr):
                                    if k in ptrvar and v.obj not in ptrvar[k]:
                                        if v.obj is not None and v.obj.id not in base_ids and v.obj.kind not in ('global', 'fn'):
                                            raise Unsupported('loop-carried pointer to object created in loop')
                                        ptrvar[k].append(v.obj)
                                        changed = True
                                elif k in ptrvar and not isinstance(v, Ptr):
                                    raise Unsupported('pointer cell overwritten by data in loop')
                                if k in hv:
                                    incs.setdefault(k, []).append(self.inc_of(hv[k], v))
                if not changed:
                    break
            else:
                raise Unsupported('loop modification set does not stabilise')
            # loop-invariant comparison terms
            havocs = set()
            terms = self.invariant_terms(clog, mark)
            # --- candidates
            entryvals = dict(entry)
            for key in cells:
                entryvals[key] = cells[key]
            ctx0 = LoopCtx(self, est, entryvals, entryvals, est, terms, incs, fn.dem, h)
            cands = self.default_candidates(ctx0) + self.guard_candidates(ctx0, clog, lasthv, mark)
            for g in self.cand_gens:
                cands.extend(g(ctx0))
            if est.ghost.get('measure') and len(cells) > 8:
                # a loop over much state for which the driver states the whole relation: the generic candidates only cost time
                cands = [x for x in cands if x[0].startswith('ghost-inv') or x[0].startswith('phi') and x[0].endswith('==entry')]
            # init filter
            alive = []
            for nm, c in cands:
                try:
                    e = c(ctx0)
                except Unsupported:
                    continue
                if e is None:
                    continue
                e = simp(e)
                if z3.is_true(e) or self.quick(est, e, 15000 if nm.startswith('ghost-inv') else 0):
                    alive.append((nm, c))
            # inductiveness fixpoint
            rounds = 0
            while True:
                rounds += 1
                self.tick()
                backs = []  # (state, values, {candidate index: its assumption in the path condition})
                for var in variants():
                    s, hv = make_header(var)
                    ctx = LoopCtx(self, s, hv, entryvals, est, terms, incs, fn.dem, h)
                    assumed = {}
                    for ci, (nm, c) in enumerate(alive):
                        e = c(ctx)
                        if e is not None:
                            n0 = len(s.pc)
                            self.assume(s, e, soft=True)
                            assumed[ci] = s.pc[n0:]
                    res = run_body(s)
                    for tag, t in res:
                        if tag == 'back':
                            backs.append((t, vals_at_back(t), assumed))
                # inner fixpoint on these paths; the surviving set is re-explored until nothing is dropped
                gone = set()
                while True:
                    n0 = len(gone)
                    for t, bv, assumed in backs:
                        bctx = LoopCtx(self, t, bv, entryvals, est, terms, incs, fn.dem, h)
                        for ci, (nm, c) in enumerate(alive):
                            if ci in gone:
                                continue
                            e = c(bctx)
                            if e is None:
                                continue
                            t2 = t
                            if gone:
                                out = {id(x) for g in gone for x in assumed.get(g, ())}
                                t2 = t.copy()
                                t2.pc = [x for x in t.pc if id(x) not in out]
                            if not self.quick(t2, e, 15000 if nm.startswith('ghost-inv') else 4000 if nm.startswith('ghost') else 0):
                                gone.add(ci)
                    if len(gone) == n0:
                        break
                if not gone:
                    break
                alive = [x for ci, x in enumerate(alive) if ci not in gone]
        finally:
            self.record = record
            self.dry = saved_dry
        # --- final pass: record everything
        outs = []
        label = '%s#loop%d' % (fn.short, sorted(fn.loops()).index(h))
        if record:
            for nm, c in alive:
                e = c(ctx0)
                if e is not None:
                    self.oblige(est, e, 'loop-invariant-init', label + ':' + nm)
            self.loops_info.append(dict(loop=label, invariants=[nm for nm, _ in alive], candidates=len(cands), rounds=rounds,
                                        havoc_cells=len(cells), havoc_objects=[o.name for o in ranges]))
        backs = []
        heads = []
        for var in variants():
            s, hv = make_header(var)
            ctx = LoopCtx(self, s, hv, entryvals, est, terms, incs, fn.dem, h)
            for nm, c in alive:
                e = c(ctx)
                if e is not None:
                    self.assume(s, e)
            hs = s.copy() if est.ghost.get('measure') else None
            res = run_body(s)
            for tag, t in res:
                if tag == 'exit':
                    outs.append(t)
                else:
                    bv = vals_at_back(t)
                    backs.append((t, hv, bv))
                    heads.append(hs)
                    if record:
                        bctx = LoopCtx(self, t, bv, entryvals, est, terms, incs, fn.dem, h)
                        for nm, c in alive:
                            e = c(bctx)
                            if e is not None:
                                self.oblige(t, e, 'loop-invariant-preserved', label + ':' + nm)
        if record and self.opts['require_termination'] and backs:
            self.check_termination(est, backs, label, heads)
        return outs

    def is_ptr_cell(self, t, key):
        _, o, off, n = key
        m = t.mem.get(o.id)
        return m is not None and off in m.cells and isinstance(m.cells[off][1], Ptr)

    def explore_from_header_body(self, s, stopper):
        res = []
        try:
            forks = self.step_block(s)
        except Stop:
            return []
        states = [s] if forks is None else forks
        r = self.explore(states, stopper)
        out = []
        for tag, t in r:
            if tag == 'end':
                tag = 'exit'
            out.append((tag, t))
        return out

    def quick(self, st, e, full=0):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.hooks_affine is not None and z3.is_eq(e) and z3.is_bv(e.arg(0)):
            r = self.hooks_affine(self, st, e)
            if r is not None:
                return r
        return self.decide(st, z3.Not(e), full) == 'unsat'

    def havoc_like(self, e):
        if isinstance(e, Ptr):
            return Ptr(e.obj, self.fresh(64, 'lp')) if e.obj is not None else NULL
        if isinstance(e, list):
            return [self.havoc_like(x) for x in e]
        if z3.is_bool(e):
            self.fresh_n += 1
            return z3.Bool('lb!%d' % self.fresh_n)
        if z3.is_bv(e):
            return self.fresh(e.size(), 'lv')
        if z3.is_fp(e):
            self.fresh_n += 1
            return z3.FP('lf!%d' % self.fresh_n, e.sort())
        raise Unsupported('havoc')

    def num(self, v):
        """numeric view of a loop variable (64-bit or narrower)"""
        if isinstance(v, Ptr):
            return v.off if v.obj is not None else None
        if z3.is_expr(v) and z3.is_bv(v):
            return v
        return None

    def inc_of(self, a, b):
        x, y = self.num(a), self.num(b)
        if x is None or y is None or x.size() != y.size():
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not b.obj:
            return None
        return cdiff(y, x)

    def invariant_terms(self, clog, mark):
        """comparison operands that only mention symbols that existed at loop entry"""
        out = []
        seen = set()
        for a, b, isp, _ in clog:
            for t in (a, b):
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if self.mentions_new(t, mark):
                    continue
                out.append((t, isp))
        # dedupe constants
        return out[:24]

    def mentions_new(self, t, mark, allowed=()):
        """does t mention a symbol created after `mark` (fresh counter, object counter)?"""
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n in allowed:
                    continue
                m = re.search(r'([!@])(\d+)$', n)
                if m:
                    lim = mark[1] if (m.group(1) == '@' or n.startswith('addr!')) else mark[0]
                    if int(m.group(2)) > lim:
                        return True
            stack.extend(x.children())
        return False

    def default_candidates(self, ctx):
        c = []
        nums = {}
        for k, v in ctx.entry.items():
            n = self.num(v)
            if n is not None:
                nums[k] = n
        G = self.num

        def val(k):
            return lambda x: G(x.vals[k])

        def guard(f):
            return f
        for k, e in nums.items():
            w = e.size()
            incs = ctx.incs.get(k, [None])
            nm = self.keyname(k)
            if isinstance(ctx.entry[k], Ptr):
                eobj = ctx.entry[k].obj
            else:
                eobj = False

            def mk(k, f, eobj):
                def g(x):
                    v = x.vals[k]
                    if eobj is not False and (not isinstance(v, Ptr) or v.obj is not eobj):
                        return None
                    n = G(v)
                    if n is None:
                        return None
                    return f(n)
                return g
            if all(i == 0 for i in incs) and incs:
                c.append((nm + '==entry', mk(k, lambda n, e=e: n == e, eobj)))
                continue
            c.append((nm + '>=u entry', mk(k, lambda n, e=e: z3.UGE(n, e), eobj)))
            c.append((nm + '<=u entry', mk(k, lambda n, e=e: z3.ULE(n, e), eobj)))
            if w > 1 and w <= 32:
                c.append((nm + '>=s entry', mk(k, lambda n, e=e: n >= e, eobj)))
                c.append((nm + '<=s entry', mk(k, lambda n, e=e: n <= e, eobj)))
            ii = [i for i in incs if i is not None]
            if ii and len(ii) == len(incs):
                a = abs(ii[0])
                if a > 1 and a & (a - 1) == 0 and all(abs(i) % a == 0 for i in ii):
                    c.append((nm + ' stride', mk(k, lambda n, e=e, a=a, w=w: (n - e) & BV(a - 1, w) == 0, eobj)))
            for t, isp in ctx.terms:
                if t.size() == w:
                    c.append((nm + '<=u t', mk(k, lambda n, t=t: z3.ULE(n, t), eobj)))
                    c.append((nm + '>=u t', mk(k, lambda n, t=t: z3.UGE(n, t), eobj)))
                    if w <= 32:
                        c.append((nm + '<=s t', mk(k, lambda n, t=t: n <= t, eobj)))
                        c.append((nm + '>=s t', mk(k, lambda n, t=t: n >= t, eobj)))
                elif t.size() > w:
                    c.append((nm + '<=u t', mk(k, lambda n, t=t: z3.ULE(z3.ZeroExt(t.size() - n.size(), n), t), eobj)))
                elif t.size() < w and not isp:
                    c.append((nm + '<=u t', mk(k, lambda n, t=t: z3.ULE(n, z3.ZeroExt(n.size() - t.size(), t)), eobj)))
            # object bounds for pointers
            if isinstance(ctx.entry[k], Ptr) and eobj is not None:
                c.append((nm + '<=size', mk(k, lambda n, o=eobj: z3.ULE(n, o.size), eobj)))
        ks = list(nums)
        for a in range(len(ks)):
            for b in range(a + 1, len(ks)):
                ka, kb = ks[a], ks[b]
                ia, ib = ctx.incs.get(ka), ctx.incs.get(kb)
                if not ia or not ib or None in ia or None in ib:
                    # unequal increments: still try equality of the differences
                    pass
                ea, eb = nums[ka], nums[kb]
                if ia and ib and None not in ia and None not in ib and len(set(zip(ia, ib))) == 1 and ia[0] != 0 and ib[0] != 0:
                    da, db = ia[0], ib[0]

                    def rel(x, ka=ka, kb=kb, da=da, db=db, ea=ea, eb=eb):
                        va, vb = G(x.vals[ka]), G(x.vals[kb])
                        if va is None or vb is None:
                            return None
                        A, B = va - ea, vb - eb
                        A = z3.ZeroExt(64 - A.size(), A) if A.size() < 64 and da > 0 else (z3.SignExt(64 - A.size(), A) if A.size() < 64 else A)
                        B = z3.ZeroExt(64 - B.size(), B) if B.size() < 64 and db > 0 else (z3.SignExt(64 - B.size(), B) if B.size() < 64 else B)
                        import math
                        gg = math.gcd(abs(da), abs(db))
                        p, q = da // gg, db // gg
                        return A * BV(q) == B * BV(p)
                    c.append(('%s~%s' % (self.keyname(ka), self.keyname(kb)), rel))
                else:
                    w = ea.size()
                    if eb.size() == w:
                        def le(x, ka=ka, kb=kb):
                            va, vb = G(x.vals[ka]), G(x.vals[kb])
                            return None if va is None or vb is None else z3.ULE(va, vb)

                        def ge(x, ka=ka, kb=kb):
                            va, vb = G(x.vals[ka]), G(x.vals[kb])
                            return None if va is None or vb is None else z3.UGE(va, vb)
                        c.append(('%s<=%s' % (self.keyname(ka), self.keyname(kb)), le))
                        c.append(('%s>=%s' % (self.keyname(ka), self.keyname(kb)), ge))
        return c

    def guard_candidates(self, ctx, clog, hvs, mark):
        """comparisons evaluated in the loop, as they stood one iteration earlier (or at entry)"""
        out = []
        seen = set()
        for hv in hvs:
            syms = []
            for k, v in hv.items():
                n = self.num(v)
                if n is not None and not is_c(n):
                    syms.append((k, n))
            names = {n.decl().name() for _, n in syms if z3.is_const(n)}
            for a, b, isp, pred in clog:
                key = (a.get_id(), b.get_id(), pred)
                if key in seen:
                    continue
                seen.add(key)
                g = self.icmp_bv(pred, a, b)
                if z3.is_true(g) or z3.is_false(g):
                    continue
                used = [(k, n) for k, n in syms if z3.is_const(n) and self.has_sym(g, n)]
                if not used or self.mentions_new(g, mark, names):
                    continue
                incs = {}
                for k, n in used:
                    ii = [i for i in ctx.incs.get(k, []) if i is not None]
                    incs[k] = ii[0] if ii and len(set(ii)) == 1 and len(ii) == len(ctx.incs.get(k)) else 0

                def mk(neg, shift, g=g, used=used, incs=incs):
                    def c(x):
                        sub_ = []
                        ent = []
                        for k, n in used:
                            v = self.num(x.vals[k])
                            if v is None or v.size() != n.size():
                                return None
                            sub_.append((n, v - BV(incs[k], n.size()) if shift else v))
                            e0 = self.num(x.entry[k])
                            if e0 is not None:
                                ent.append(v == e0)
                        r = z3.substitute(g, *sub_)
                        if neg:
                            r = z3.Not(r)
                        if shift:
                            r = z3.Or(z3.And(*ent), r)
                        return r
                    return c
                nm = '%s(%s)' % (pred, ','.join(self.keyname(k) for k, _ in used))
                out.append((nm + ' held', mk(False, False)))
                out.append((nm + ' not held', mk(True, False)))
                if any(incs.values()):
                    out.append((nm + ' held before', mk(False, True)))
                    out.append((nm + ' not held before', mk(True, True)))
            if len(out) > 60:
                break
        return out

    def has_sym(self, t, n):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(n):
                return True
            stack.extend(x.children())
        return False

    def keyname(self, k):
        if k[0] == 'phi':
            return 'phi%d' % k[1]
        return 'mem[%s+%d]' % (k[1].name, k[2])

    def check_termination(self, est, backs, label, heads):
        """some loop variable is strictly monotone (no wrap): strictly increasing or strictly decreasing, unsigned"""
        keys = [k for k in backs[0][1]]
        for k in keys:
            for name, rel in (('increases', z3.UGT), ('decreases', z3.ULT)):
                ok = True
                for t, hv, bv in backs:
                    a, b = self.num(hv[k]), self.num(bv[k])
                    if a is None or b is None or a.size() != b.size() or (isinstance(hv[k], Ptr) and hv[k].obj is not bv[k].obj) or not self.quick(t, rel(b, a)):
                        ok = False
                        break
                if ok:
                    for t, hv, bv in backs:
                        self.oblige(t, rel(self.num(bv[k]), self.num(hv[k])), 'loop-terminates', label + ':' + self.keyname(k) + ' ' + name)
                    return
        for gi, (f, arg) in enumerate(est.ghost.get('measure', ())):
            # a measure given by the driver: it decreases along every path back to the loop head
            goals = [z3.ULT(self.eval_pred(t, f, [arg], True), self.eval_pred(hs, f, [arg], True)) for (t, hv, bv), hs in zip(backs, heads)]
            if all(self.quick(t, g, 15000) for (t, hv, bv), g in zip(backs, goals)):
                for (t, hv, bv), g in zip(backs, goals):
                    self.oblige(t, g, 'loop-terminates', label + ':measure%d' % gi)
                return
        self.oblige(backs[0][0], z3.BoolVal(False), 'loop-terminates', label + ':no measure found')


class UnrollFail(Exception):
    def __init__(self, snap, h):
        self.snap = snap
        self.h = h
