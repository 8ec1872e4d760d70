"""Contract terms for the two sparse matrices, used above the matrix module.

The contract itself (what set_entry, zero_entry, ... do to dimension, entries and counts) is
established against the matrix module's source by the matrix properties; here it is used."""
from vals import *
import vals, terms as tm

def zero_of(kind):
    return fconst(0.0) if kind in ('f64', 'f32') else I(0)
def one_of(kind):
    return fconst(1.0) if kind in ('f64', 'f32') else I(1)

def mnewm(kind): return app('matnew', kind, sort='mat')

def okidx(c, r):
    return band(lt(c, I(U64)), lt(r, I(U64)))

def _chain_ops(M):
    """[(op, g, v, c, r)], base"""
    ops = []
    while M.op == 'app' and M.args[0] in ('msetg', 'mzerog'):
        if M.args[0] == 'msetg':
            _, B_, g, v, c, r, kind = M.args
            ops.append(('msetg', g.args[0], v, c, r, kind))
        else:
            _, B_, g, c, r = M.args
            ops.append(('mzerog', g.args[0], None, c, r, None))
        M = B_
    ops.reverse()
    return ops, M

def _build(base, ops):
    for o in ops:
        if o[0] == 'msetg':
            base = app('msetg', base, G(o[1]), o[2], o[3], o[4], o[5], sort='mat')
        else:
            base = app('mzerog', base, G(o[1]), o[3], o[4], sort='mat')
    return base

def _push(ops, o):
    """append op o to ops keeping runs of commuting ops sorted"""
    if o[1] is FALSE:
        return ops
    i = len(ops)
    def commute(a, b):
        return a[0] == b[0] and a[2] is b[2]
    def key(a): return (a[3].id, a[4].id)
    while i > 0 and commute(ops[i - 1], o):
        k = key(ops[i - 1])
        if k == key(o):
            p = ops[i - 1]
            return ops[:i - 1] + [(p[0], bor_(p[1], o[1]), p[2], p[3], p[4], p[5])] + ops[i:]
        if k < key(o): break
        i -= 1
    # an equal key further down the run
    return ops[:i] + [o] + ops[i:]

def mset(M, v, c, r, kind, g=TRUE):
    if kind == 'adj' and v.op == 'int' and v.args[0] != 0: v = I(1)
    if g is FALSE: return M
    ops, base = _chain_ops(M)
    return _build(base, _push(ops, ('msetg', g, v, c, r, kind)))
def mzero(M, c, r, g=TRUE):
    if g is FALSE: return M
    ops, base = _chain_ops(M)
    return _build(base, _push(ops, ('mzerog', g, None, c, r, None)))
tm._builders['msetg'] = lambda M, g, v, c, r, kind: mset(M, v, c, r, kind, g.args[0])
tm._builders['mzerog'] = lambda M, g, c, r: mzero(M, c, r, g.args[0])
def minc(M, c, r, kind): return app('minc', M, c, r, kind, sort='mat')
tm._builders['minc'] = minc
def mmind(M, n): return app('mmind', M, n, sort='mat')
tm._builders['mmind'] = mmind
def mmul(M, x): return app('mmul', M, x, sort='mat')
tm._builders['mmul'] = mmul

def mat_ite(g, a, b):
    oa, ba = _chain_ops(a)
    ob, bb = _chain_ops(b)
    if ba is not bb:
        return None
    i = 0
    while i < len(oa) and i < len(ob) and oa[i] == ob[i]:
        i += 1
    ra, rb = oa[i:], ob[i:]
    if not ra and not rb: return a
    kinds = set((o[0], o[2]) for o in ra + rb)
    if (ra and rb) and len(kinds) > 1:
        return None
    ops = oa[:i]
    for o in ra: ops = _push(ops, (o[0], band(g, o[1])) + o[2:])
    for o in rb: ops = _push(ops, (o[0], band(bnot(g), o[1])) + o[2:])
    return _build(ba, ops)
tm.sort_ite['mat'] = mat_ite

DIMB = {}           # opaque matrix -> bound on its dimension (a validity assumption of the caller)

def matbound(M, memo=None):
    """a constant above every index of M, from intervals alone"""
    memo = {} if memo is None else memo
    if M in memo: return memo[M]
    memo[M] = 0
    b = U64
    if M.op == 'ite': b = max(matbound(M.args[1], memo), matbound(M.args[2], memo))
    elif M.op == 'app':
        n = M.args[0]
        hi = lambda *ts: max((interval(t)[1] if interval(t)[1] is not None else U64 - 1) for t in ts)
        if n == 'matnew': b = 0
        elif n == 'msetg': b = max(matbound(M.args[1], memo), hi(M.args[4], M.args[5]) + 1)
        elif n == 'minc': b = max(matbound(M.args[1], memo), hi(M.args[2], M.args[3]) + 1)
        elif n == 'mmind': b = max(matbound(M.args[1], memo), hi(M.args[2]))
        elif n in ('mzerog', 'mmul'): b = matbound(M.args[1], memo)
        elif n == 'fold':
            l = M.args[3]
            m2 = dict(memo)
            m2[l.args[3]] = 0          # the accumulator contributes what the start and the rounds put in
            b = max(matbound(M.args[2], memo), matbound(l.args[1], m2))
        elif M in DIMB: b = DIMB[M]
    memo[M] = min(b, U64)
    return memo[M]
tm._builders['matbound'] = matbound

def mdim(M):
    if M.op == 'ite': return ite(M.args[0], mdim(M.args[1]), mdim(M.args[2]))
    if M.op == 'app':
        n = M.args[0]
        if n == 'matnew': return I(0)
        if n == 'msetg':
            _, B_, g, v, c, r, kind = M.args
            d = mdim(B_)
            gg = band(g.args[0], okidx(c, r))
            m = tmax(tmax(d, add(c, I(1))), add(r, I(1)))
            return ite(gg, m, d)
        if n == 'mzerog': return mdim(M.args[1])
        if n == 'minc':
            d = mdim(M.args[1]); c, r = M.args[2], M.args[3]
            return ite(okidx(c, r), tmax(tmax(d, add(c, I(1))), add(r, I(1))), d)
        if n == 'mmind': return tmax(mdim(M.args[1]), M.args[2])
        if n == 'mmul': return mdim(M.args[1])
    return app('mdim', M, lo=0, hi=DIMB.get(M, U64))
tm._builders['mdim'] = mdim

def tmin(a, b): return ite(le(a, b), a, b)

def mget(M, c, r, kind):
    if M.op == 'ite': return ite(M.args[0], mget(M.args[1], c, r, kind), mget(M.args[2], c, r, kind))
    if M.op == 'app':
        n = M.args[0]
        if n == 'matnew': return zero_of(kind)
        if n == 'msetg':
            _, B_, g, v, c0, r0, _k = M.args
            gg = band(g.args[0], okidx(c0, r0), eq(c, c0), eq(r, r0))
            if kind == 'adj': v = ite(eq(v, I(0)), I(0), I(1))
            return ite(gg, v, mget(B_, c, r, kind))
        if n == 'mzerog':
            _, B_, g, c0, r0 = M.args
            return ite(band(g.args[0], eq(c, c0), eq(r, r0)), zero_of(kind), mget(B_, c, r, kind))
        if n == 'mmind': return mget(M.args[1], c, r, kind)
    if kind == 'adj':
        return ite(min_(M, c, r), I(1), I(0))
    lo, hi, so = scalar_range(kind)
    return app('mget', M, c, r, kind, lo=lo, hi=hi, sort=so)
tm._builders['mget'] = mget

def min_(M, c, r):
    """adjacency membership"""
    if M.op == 'ite': return bite(M.args[0], min_(M.args[1], c, r), min_(M.args[2], c, r))
    if M.op == 'app' and M.args[0] in ('matnew', 'msetg', 'mzerog', 'mmind'):
        return eq(mget(M, c, r, 'adj'), I(1))
    if c.op == 'app' and c.args[0] == 'ecol' and c.args[1] is M and r.op == 'app' and r.args[0] == 'erow' \
            and r.args[1] is M and r.args[2] is c.args[2]:
        return TRUE
    return rawpred('min', M, c, r)
tm._preds['min'] = min_

def mcount(M):
    if M.op == 'ite': return ite(M.args[0], mcount(M.args[1]), mcount(M.args[2]))
    if M.op == 'app' and M.args[0] == 'matnew': return I(0)
    if M.op == 'app' and M.args[0] == 'mmind': return mcount(M.args[1])
    return app('mcount', M, lo=0, hi=MAXMAP)
tm._builders['mcount'] = mcount
