"""Assumed contract of std::unordered_map<K, uint64_t> (scalar or tuple keys): a finite map from keys to values.
Nodes are instantiated lazily: an operation with a key forks on equality with the keys met so far; an unmet key has an arbitrary
presence and an arbitrary value (none after clear() or for a new map). Node layout is libstdc++'s: next pointer, pair<const K,V>."""
import re
import z3
from engine import *

UM = r'^(?:.* )?std::unordered_map<'
LEAVES = [
    (re.compile(r'std::unordered_map<unsigned short,'), [(0, 2)], 2, 2),
    (re.compile(r'std::unordered_map<unsigned int,'), [(0, 4)], 4, 4),
    (re.compile(r'std::unordered_map<unsigned long,'), [(0, 8)], 8, 8),
    (re.compile(r'std::unordered_map<std::tuple<unsigned short, [\w:]+, unsigned char>,'), [(0, 1), (4, 4), (8, 2)], 12, 4),
]


# value types other than a 64-bit counter: size, alignment, bytes of a value-initialised one
VALUES = [
    (re.compile(r'std::unordered_map<unsigned long, novatel::edie::oem::rangecmp2::LockTimeInfo,'), 9, 1, b'\0' * 9),
    (re.compile(r'std::unordered_map<unsigned long, novatel::edie::oem::rangecmp4::LockTimeInfo,'), 24, 8, b'\0' * 16 + b'\xff' + b'\0' * 7),
]


class MapC:
    def __init__(self, e):
        self.e = e

    def layout(self, fn):
        for rx, lv, sz, al in LEAVES:
            if rx.search(fn.dem):
                koff = 8
                self.vsize, self.vinit = 8, None
                va = 8
                for r2, vs, va2, vi in VALUES:
                    if r2.search(fn.dem):
                        self.vsize, va, self.vinit = vs, va2, vi
                va = max(va, al)
                voff = (koff + sz + va - 1) // va * va
                return lv, koff, voff
        raise Unsupported('map type ' + fn.dem[:120])

    def mapkey(self, st, p):
        if not is_c(p.off):
            raise Unsupported('map at symbolic offset')
        return ('map', p.obj.id, cval(p.off))

    def state(self, st, k):
        return st.ghost.get(k, ('empty', ()))

    def keyvals(self, st, p, leaves):
        return [self.e.as_bv(self.e.mread(st, p.obj, add(p.off, BV(o)), n)) for o, n in leaves]

    def lookup(self, st, fn, mp, kp):
        """-> list of (state, index of the entry)"""
        e = self.e
        lv, koff, voff = self.layout(fn)
        mk = self.mapkey(st, mp)
        kv = self.keyvals(st, kp, lv)
        out = []
        rest = st
        base, ents = self.state(st, mk)
        for i, (node, present) in enumerate(ents):
            nk = [self.e.as_bv(e.mread(rest, node, BV(koff + o), n)) for o, n in lv]
            eq = simp(z3.And(*[a == b for a, b in zip(kv, nk)]))
            if e.feasible(rest, eq):
                if not e.feasible(rest, z3.Not(eq)):
                    out.append((rest, i))
                    return out
                s = rest.copy()
                e.assume(s, eq)
                out.append((s, i))
                rest = rest.copy() if rest is st else rest
                e.assume(rest, z3.Not(eq))
        node = e.new_obj(rest, 'mapnode', BV(voff + self.vsize), 'heap')
        for (o, n), v in zip(lv, kv):
            e.mwrite(rest, node, BV(koff + o), n, v)
        if base == 'any':
            e.fresh_n += 1
            present = z3.Bool('present!%d' % e.fresh_n)
        else:
            present = z3.BoolVal(False)
        rest.ghost[mk] = (base, ents + ((node, present),))
        out.append((rest, len(ents)))
        return out

    def install(self):
        e = self.e
        e.assumptions.add('std::unordered_map is a finite map (assumed contract of the standard library): operator[], find, at, count, '
                          'try_emplace, clear, empty, end')

        def C(p, h):
            e.user_contracts = list(e.user_contracts) + [(re.compile(UM + p), h)]

        def fork(out, val):
            r = []
            for s, i in out:
                v = val(s, i)
                if v is not None:
                    r += v
            return ('fork', r)

        def ensure(s, mk, i, voff, init=None):
            """the entry is present afterwards; absent entries start at init (0)"""
            base, ents = s.ghost[mk]
            node, pres = ents[i]
            if self.vinit is not None:
                if not z3.is_true(pres) and not z3.is_false(pres):
                    raise Unsupported('map entry of unknown presence')
                if z3.is_false(pres):
                    for k, b in enumerate(self.vinit):
                        e.mwrite(s, node, BV(voff + k), 1, BV(b, 8))
                s.ghost[mk] = (base, ents[:i] + ((node, z3.BoolVal(True)),) + ents[i + 1:])
                return node, pres
            old = e.as_bv(e.mread(s, node, BV(voff), 8))
            e.mwrite(s, node, BV(voff), 8, simp(z3.If(pres, old, BV(0) if init is None else init)))
            s.ghost[mk] = (base, ents[:i] + ((node, z3.BoolVal(True)),) + ents[i + 1:])
            return node, pres

        def index(e_, st, fn, a, i):
            lv, koff, voff = self.layout(fn)
            mk = self.mapkey(st, a[0])

            def val(s, k):
                node, _ = ensure(s, mk, k, voff)
                return [(s, Ptr(node, BV(voff)))]
            return fork(self.lookup(st, fn, a[0], a[1]), val)
        C(r'.*>::operator\[\]\(', index)

        def find(e_, st, fn, a, i):
            mk = self.mapkey(st, a[0])

            def val(s, k):
                node, pres = s.ghost[mk][1][k]
                r = []
                if e.feasible(s, pres):
                    t = s.copy()
                    e.assume(t, pres)
                    r.append((t, Ptr(node, BV(0))))
                if e.feasible(s, z3.Not(pres)):
                    t = s.copy()
                    e.assume(t, z3.Not(pres))
                    r.append((t, NULL))
                return r
            return fork(self.lookup(st, fn, a[0], a[1]), val)
        C(r'.*>::find\(', find)

        def count(e_, st, fn, a, i):
            mk = self.mapkey(st, a[0])
            return fork(self.lookup(st, fn, a[0], a[1]), lambda s, k: [(s, simp(z3.If(s.ghost[mk][1][k][1], BV(1), BV(0))))])
        C(r'.*>::(count|contains)\(', count)

        def at(e_, st, fn, a, i):
            lv, koff, voff = self.layout(fn)
            mk = self.mapkey(st, a[0])

            def val(s, k):
                node, pres = s.ghost[mk][1][k]
                e.oblige(s, pres, 'map-at-present', '', i.get('loc'))
                return [(s, Ptr(node, BV(voff)))]
            return fork(self.lookup(st, fn, a[0], a[1]), val)
        C(r'.*>::at\(', at)

        def begin(e_, st, fn, a, i):
            base, ents = self.state(st, self.mapkey(st, a[0]))
            if base == 'any' or any(not z3.is_true(p) and not z3.is_false(p) for _, p in ents):
                raise Unsupported('iteration over a map of unknown contents')
            live = [n for n, p in ents if z3.is_true(p)]
            for n, nx in zip(live, live[1:] + [None]):
                e.mwrite(st, n, BV(0), 8, Ptr(nx, BV(0)) if nx is not None else NULL)
            return Ptr(live[0], BV(0)) if live else NULL
        C(r'.*>::c?begin\(\)', begin)

        def end(e_, st, fn, a, i):
            return NULL
        C(r'.*>::c?end\(\)', end)

        def clear(e_, st, fn, a, i):
            st.ghost[self.mapkey(st, a[0])] = ('empty', ())
            return None
        C(r'.*>::clear\(\)', clear)
        C(r'.*>::unordered_map\(\)$', clear)
        C(r'.*>::~unordered_map\(\)$', clear)

        def empty(e_, st, fn, a, i):
            base, ents = self.state(st, self.mapkey(st, a[0]))
            some = z3.Or(*[p for _, p in ents]) if ents else z3.BoolVal(False)
            if base == 'any':
                e.fresh_n += 1
                some = z3.Or(some, z3.Bool('more!%d' % e.fresh_n))
            return simp(z3.Not(some))
        C(r'.*>::empty\(\)', empty)

        def size(e_, st, fn, a, i):
            base, ents = self.state(st, self.mapkey(st, a[0]))
            n = BV(0)
            for _, p in ents:
                n = n + z3.If(p, BV(1), BV(0))
            if base == 'any':
                x = e.fresh(64, 'size')
                e.assume(st, z3.UGE(x, n))
                n = x
            return simp(n)
        C(r'.*>::size\(\)', size)

        def emplace(e_, st, fn, a, i):
            """pair<iterator,bool> try_emplace/emplace(key, value...) with one integer value argument (or none)"""
            lv, koff, voff = self.layout(fn)
            mk = self.mapkey(st, a[0])
            init = None
            if len(a) > 2:
                m = re.search(r'<unsigned long|<int|<long|<unsigned int', fn.dem.split('::')[-1])
                n = 8 if 'long' in fn.dem.split('emplace')[-1].split('>')[0] else 4
                v = e.as_bv(e.mread(st, a[2].obj, a[2].off, n))
                init = v if n == 8 else z3.SignExt(32, v)

            def val(s, k):
                node, pres = ensure(s, mk, k, voff, init)
                return [(s, [Ptr(node, BV(0)), simp(b2i(z3.Not(pres), 8))])]
            return fork(self.lookup(st, fn, a[0], a[1]), val)
        C(r'.*>::(try_)?emplace<?', emplace)

        def anymap(e_, st, fn, a, i):
            st.ghost[self.mapkey(st, a[0])] = ('any', ())
            return None
        e.user_contracts = list(e.user_contracts) + [(re.compile(r'^__vc_any_map$'), anymap)]
