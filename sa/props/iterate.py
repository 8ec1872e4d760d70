"""Iteration: simulation between the iterator's state and the list of entries still to come.

The state of a matrix iterator denotes the sequence
    remaining(s) = [ (current column, row j, value j) for j >= position in the current column's rows ]
                   ++ concat over the columns not yet visited of all their rows
Evaluating one call of next() (one round of its loop, from an unknown state) must show
    a yielded item is the head of remaining(s) and the new state denotes its tail,
    a silent round leaves remaining(s) unchanged and consumes a column,
    None is returned only when remaining(s) is empty.
Together with into_iter denoting all entries, and each table yielding each key once, every stored
entry is yielded exactly once."""
import re
from vals import *
import vals, terms as tm, stdm, arith
from ev import Ev
from props.names import *
from props.matrix import Mx, TR
from chk import Anchor, Res

def fields(p, ty): return p.types[ty]['variants'][0]['fields']

class It:
    def __init__(self, x):
        self.x = x
        p = x.p
        self.name = 'CsrAdjacencyMatrixIter' if x.kind == 'adj' else f'CsrSquareMatrixIter<{x.kind}>'
        self.ty = ty_of(p, self.name)
        self.tab, tty = x.table(x.pre)
        self.vt = stdm.targs(tty)[1]
        self.n = mlen(self.tab)
        self.i = sym('i', 0, MAXMAP); self.j = sym('j', 0, MAXMAP)
        self.S = sym('rows', None, None, 'map'); self.cc = sym('curcol', 0, U64)
        self.have = pred('inrow', sym('have', None, None, 'obj'))
        self.roles = {}
        vs = []
        for k, (n, t, _) in enumerate(fields(p, self.ty)):
            if t.startswith('&') and 'matrix::' in t: vs.append(rv(x.pre)); r = 'm'
            elif t.startswith('std::option::Option<std::collections::hash_'):
                vs.append(opt(self.have, self.rowit(self.S, self.j))); r = 'row'
            elif t.startswith('std::collections::hash_') and 'Hash' in t.split('Iter<', 1)[1]:
                vs.append(self.colit(self.i)); r = 'col'
            elif t == 'u64': vs.append(self.cc); r = 'cur'
            else: raise Unsupported('iterator field ' + t)
            if r in self.roles: raise Unsupported('iterator state')
            self.roles[r] = k
        if set(self.roles) != {'m', 'row', 'col', 'cur'}: raise Unsupported('iterator state')
        self.state = tup(*vs)
    def colit(self, i): return mk('iter', mk('src', mk('dmap', self.tab, 'kv', 'u64', self.vt), i))
    def rowit(self, S, j):
        if self.x.kind == 'adj': return mk('iter', mk('src', mk('dmap', S, 'k', 'u64', '()'), j))
        return mk('iter', mk('src', mk('dmap', S, 'kv', 'u64', self.x.ety), j))
    def item(self, S, cc, j):
        k = mkey(S, j, 'u64')
        if self.x.kind == 'adj': return tup(cc, k)
        return tup(mval(S, k, self.x.ety), cc, k)
    def with_(self, **kw):
        v = list(self.state.args)
        for r, x in kw.items(): v[self.roles[r]] = x
        return tup(*v)

def o_into(ck, W, kinds):
    def mkf(kd):
        x = Mx(ck, W, kd)
        it = It(x)
        fn = x.ty + '::into_iter'
        R = W.run(ck, x.key('into_iter', 'IntoIterator', ref=True), [rv(x.pre)])
        s = R.ret
        # before the first column: nothing in the current column, no column visited
        ro = it.roles
        ck.eq('into_iter: starts before the first column', fn, s.args[ro['col']], it.colit(I(0)), R.pc)
        ck.eq('into_iter: iterates over the matrix itself', fn, s.args[ro['m']], rv(x.pre), R.pc)
        row = s.args[ro['row']]
        g = dict((v, gg) for v, gg, _ in tm.en_alts(row)).get(1, FALSE)
        ck.holds('into_iter: no current column yet', fn, bnot(g), R.pc)
    for kd in kinds:
        ck.section('into_iter', kd + '::into_iter', lambda: mkf(kd))

def o_next(ck, W, kinds):
    def mkf(kd):
        x = Mx(ck, W, kd)
        it = It(x)
        fn = it.name + '::next'
        rounds = []
        ev = Ev(W.core, ())
        def hook(ev_, body, pc0, st0):
            if rounds: raise Unsupported('nested or repeated loop in next')
            back, exs = body(dict(st0), pc0)
            rounds.append((pc0, dict(st0), back))
            return exs
        ev.loop_hook = hook
        key = K(W.core, it.name.split('<')[0] + (f'<{kd}>' if kd != 'adj' else ''), 'next', 'Iterator')
        b = W.core.bodies[key]
        ck.fns[key] = ck.fns.get(key, 0) + 1
        pc, st, ret = ev.run(b, [mk('ref', 'P0')], {'P0': it.state})
        for k in ev.visited: ck.fns.setdefault(k, 1)
        if not rounds:
            rounds.append((TRUE, {'P0': it.state}, None))
        pc0, st0, back = rounds[0]
        dim = x.obs('dimension', x.pre)
        nonempty = bnot(eq(dim, I(0)))
        inrow = band(it.have, lt(it.j, mlen(it.S)))
        more = lt(it.i, it.n)
        ret = ret if ret.op == 'en' else ev.expand(ret, b['locals'][0][0])
        alts = {v: (g, f) for v, g, f in tm.en_alts(ret)}
        some_g, some_f = alts.get(1, (FALSE, None))
        none_g = alts.get(0, (FALSE, None))[0]
        post = st['P0'] if st.get('P0') is not None else it.state
        inv = bimp(eq(dim, I(0)), eq(it.n, I(0)))      # a matrix of dimension zero has no columns
        ctx = band(inv, bimp(it.have, bnot(eq(dim, I(0)))))
        # a matrix of dimension zero has no stored entries: early exits there are allowed
        ck.eq('next: yields exactly when the current column has rows left', fn, G(band(pc, some_g)), G(inrow), band(ctx, nonempty))
        if some_f:
            c2 = band(ctx, nonempty, pc, some_g, inrow)
            ck.eq('next: the item is the next row of the current column with its value', fn, some_f[0], it.item(it.S, it.cc, it.j), c2)
            p = stepped(post, c2)
            ck.eq('next: yielding advances the current column by one row', fn, rowstate(it, p, c2), it.rowit(it.S, add(it.j, I(1))), c2)
            ck.eq('next: yielding keeps the current column', fn, p.args[it.roles['cur']], it.cc, c2)
            ck.eq('next: yielding does not skip columns', fn, p.args[it.roles['col']], it.colit(it.i), c2)
        ck.eq('next: ends exactly when no row and no column is left', fn, G(band(pc, none_g)), G(band(bnot(inrow), bnot(more))), band(ctx, nonempty))
        if back is None:
            ck.holds('next: continues with the next column', fn, bnot(band(nonempty, bnot(inrow), more)), ctx)
            return
        bpc, bst = back
        go = band(bnot(inrow), more)
        c3 = band(ctx, nonempty, bpc, go)
        ck.eq('next: moves to the next column when the current one is finished', fn, G(bpc), G(go), band(ctx, nonempty, pc0))
        p = bst['P0']
        k = mkey(it.tab, it.i, 'u64')
        rows = mval(it.tab, k, it.vt)
        ck.eq('next: exactly one column is consumed', fn, p.args[it.roles['col']], it.colit(add(it.i, I(1))), c3)
        ck.eq('next: the new current column starts at its first row', fn, rowstate(it, p, c3), it.rowit(rows, I(0)), c3)
        ck.eq('next: rows are reported under the column they belong to', fn, p.args[it.roles['cur']], k, c3)
        # nothing but the iterator state may carry information from one round to the next
        for c, v in st0.items():
            if c == 'P0': continue
            w = bst.get(c)
            if w is not None and w is not v and not (v.op == 'app' and v.args[0] == 'undef'):
                raise Unsupported('loop carries state outside the iterator')
    def stepped(post, c): return post
    def rowstate(it, p, c):
        row = p.args[it.roles['row']]
        a = {v: (g, f) for v, g, f in tm.en_alts(row)} if row.op == 'en' else None
        if a is None:
            if row.op == 'ite':
                g = restrict(row.args[0], c)
                if g is TRUE: return rowstate2(row.args[1])
                if g is FALSE: return rowstate2(row.args[2])
            raise Unsupported('row iterator state')
        g, f = a.get(1, (FALSE, None))
        if f is None or arith.sat(band(c, bnot(g)), steps=arith.Steps(2000)) is not None:
            return mk('tup')
        return f[0]
    def rowstate2(row):
        a = {v: (g, f) for v, g, f in tm.en_alts(row)}
        return a[1][1][0] if 1 in a else mk('tup')
    for kd in kinds:
        ck.section('next', kd + '::next', lambda: mkf(kd))

# ------------------------------------------------------------------ provided methods an iterator overrides
OVER = re.compile(r"^<(.*) as (?:\w+::)*(Iterator|ExactSizeIterator|DoubleEndedIterator)>::(\w+)$")

def overrides(p, name):
    for k in sorted(p.bodies):
        m = OVER.match(k)
        if m and re.search(r'\b' + name + r'\b', m.group(1)) and m.group(3) != 'next' and '::tests::' not in k: yield k, m.group(3)

def hinted(ck, fn, r, left, ctx):
    """a size hint brackets the number of items still to come"""
    lo, hi = r.args
    ck.holds('size_hint: the lower bound is no more than what is left', fn, le(lo, left), ctx)
    if hi.op not in ('en', 'ite'): raise Unsupported('upper bound of a size hint')
    for v, g, f in tm.en_alts(hi):
        if v == 1: ck.holds('size_hint: the upper bound is no less than what is left', fn, le(left, f[0]), band(ctx, g))

def judge(ck, fn, meth, R, left, ctx=TRUE):
    c = band(R.pc, ctx)
    ck.total(meth, fn, R, ctx)
    if meth == 'size_hint': hinted(ck, fn, R.ret, left, c)
    elif meth in ('count', 'len'): ck.eq(f'{meth}: the number of items left', fn, R.ret, left, c)
    elif meth == 'is_empty': ck.eq('is_empty: no items left', fn, R.ret, G(eq(left, I(0))), c)
    else: raise Unsupported('own implementation of ' + meth)

def o_over(ck, W, kinds):
    """where a matrix iterator has its own version of a provided method, it agrees with stepping"""
    for kd in kinds:
        nm = 'CsrAdjacencyMatrixIter' if kd == 'adj' else f'CsrSquareMatrixIter'
        for key, meth in overrides(W.core, nm):
            if kd != 'adj' and f'<{kd}>' not in key and f', {kd}>' not in key: continue
            def f(key=key, meth=meth):
                x = Mx(ck, W, kd)
                it = It(x)
                n = x.obs('entry_count', x.pre)
                inv = le(n, I(MAXMAP))
                s0 = W.run(ck, x.key('into_iter', 'IntoIterator', ref=True), [rv(x.pre)]).ret
                run = lambda s: W.run(ck, key, [mk('ref', 'P0') if W.core.bodies[key]['locals'][1][0].startswith('&mut') else rv(s) if W.core.bodies[key]['locals'][1][0].startswith('&') else s], {'P0': s})
                judge(ck, key + ' (at the start)', meth, run(s0), n, inv)
                # in the last column, and after it
                s1 = it.with_(col=it.colit(it.n), row=some(it.rowit(it.S, it.j)))
                d = band(le(it.j, mlen(it.S)), le(mlen(it.S), n), lt(I(0), x.obs('dimension', x.pre)), inv)
                judge(ck, key + ' (in the last column)', meth, run(s1), sub(mlen(it.S), it.j), d)
                ck.unk(f'{meth}: agrees with stepping', key, 'decided at the start and in the last column only')
            ck.section(meth, key, f)
