"""Obligations on compression, decompression, average pooling, approximation and the builder."""
from vals import *
from mat import *
import vals, terms as tm, arith, contracts, stdm
import cmp as C
from ev import Ev
from chk import Anchor, Limit, TimeUp
from props.names import *
from props.graph import Gx, SG, CG, GR, V, okpart, sect, addedge
from props.codec import Cx, zerobits, tdiv_ceil8

BD = 'CompressedGraphBuilder'

def byte(n): return sym(n, 0, 255)
def clampi(x, lo, hi): return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))

def o_builder(ck, W, asp=None):
    def f(fn):
        x = Cx(ck, W); x.ty = BD
        und = V('und'); undb = pred('undq', sym('u', None, None, 'obj')); n = V('n'); lvl = byte('lvl')
        R = x.run(x.key('new'), [G(undb), n, lvl])
        F = x.run(x.key('finish'), [R.ret], pc=R.pc)
        x.ty = CG
        edim = ite(eq(n, I(0)), I(1), tdiv_ceil8(n))
        M = mset(mnewm('u64'), I(0), sub(edim, I(1)), I(0), 'u64')
        x.same('builder: a new builder holds', fn, F.ret, undb, n, clampi(lvl, I(1), I(64)), I(0), M, F.pc)
        ck.eq('builder: the matrix has one block per eight vertices', fn, mdim(mat1(F.ret)), edim, F.pc)
        ck.eq('builder: the matrix starts empty', fn, mcount(mat1(F.ret)), mcount(M), F.pc)
        ck.total('builder: construction', fn, R)
        ck.total('builder: finishing a new one', fn, F)
    sect(ck, 'new', f'{BD}::new', f)
    def f2(fn):
        x = Cx(ck, W)
        b0 = W.typed('b', ty_of(W.core, BD), x.con)
        x.ty = BD
        F0 = x.run(x.key('finish'), [b0])
        e, c, r = V('e'), V('col'), V('row'); has = pred('given', sym('w?', None, None, 'obj')); w = V('w')
        R = x.run(x.key('add_compressed_matrix_entry'), [mk('ref', 'P0'), e, c, r, opt(has, w)], {'P0': b0})
        ck.total('builder: adding a block', fn, R)
        ck.total('builder: finishing', fn, F0)
        F1 = x.run(x.key('finish'), [R.st['P0']], pc=R.pc)
        x.ty = CG
        old, new = F0.ret, F1.ret
        tot = add(x.obs('edge_count', old), ite(has, w, popcount(e)))
        x.same('builder: adding a block', fn, new, asB(x.obs('is_undirected', old)), x.obs('vertex_count', old), x.obs('compression_level', old, trait=None),
               ite(le(tot, I(U64)), tot, I(U64)), mset(mat1(old), e, c, r, 'u64'), R.pc)
        ck.eq('builder: matrix dimension after adding a block', fn, mdim(mat1(new)), mdim(mset(mat1(old), e, c, r, 'u64')), R.pc)
    sect(ck, 'add', f'{BD}::add_compressed_matrix_entry', f2)

def mat1(g):
    while g.op == 'tup' and len(g.args) == 1: g = g.args[0]
    ms = [v for v in g.args if sort_of(v) == 'mat'] if g.op == 'tup' else []
    if len(ms) != 1: raise Unsupported('the graph holds more than one matrix')
    return ms[0]

def valid(x):
    """a compressed graph whose blocks lie inside its vertex count has at most 2^61 blocks a side"""
    DIMB[x.M] = 1 << 61
    return x

def o_query(ck, W, asp=None):
    def f(fn):
        x = Cx(ck, W); a, b = V('qa'), V('qb')
        R = x.run(x.key('does_edge_exist', GR), [rv(x.pre), a, b])
        M = mat1(x.pre)
        blk = mget(M, tdiv(a, I(8)), tdiv(b, I(8)), 'u64')
        want = bit(blk, add(scale(tmod(b, I(8)), 8), tmod(a, I(8))))
        ck.eq('compressed graph: an edge exists exactly when its bit in its block is set', fn, G(zerobits(asB(R.ret))), G(want), R.pc)
        ck.total('compressed graph: the edge query', fn, R)
        R = x.run(x.key('get_compressed_matrix_entry'), [rv(x.pre), a, b])
        ck.eq('compressed graph: reading a block', fn, R.ret, mget(M, a, b, 'u64'), R.pc)
        ck.total('compressed graph: reading a block', fn, R)
    sect(ck, 'query', f'{CG}::does_edge_exist', f)

def o_decompress(ck, W, asp=None):
    def f(fn):
        x = valid(Cx(ck, W))
        R = x.run(x.key('decompress'), [rv(x.pre)])
        M, n = mat1(x.pre), x.verts
        ck.total('decompress', fn, R)
        k = fresh('k', 0, MAXLEN); acc = fresh('acc', sort='mat')
        e, c, r = delem(mk('dmat', M, 'u64'), k).args
        M0 = mset(mnewm('adj'), I(0), sub(n, I(1)), I(0), 'adj', lt(I(0), n))
        step = acc
        for i in range(64):
            step = addedge(step, x.und, add(scale(c, 8), I(i % 8)), add(scale(r, 8), I(i // 8)), bit(e, I(i)))
        MR = Ev(W.core).fold(mcount(M), M0, lam(k, step, acc))
        g = Gx(ck, W, SG)
        g.same('decompress: a graph', fn, R.ret, x.und, MR, R.pc, ('dir', 'vertices', 'edges', 'count'))
    sect(ck, 'decompress', f'{CG}::decompress', f)

def ceildiv(n, b): return add(tdiv(n, b), ite(eq(tmod(n, b), I(0)), I(0), I(1)))

def o_pool(ck, W, asp=None):
    def f(fn):
        x = Gx(ck, W); M = x.M; n = mdim(M); b0 = V('b')
        R = x.run(x.key('find_avg_pool_matrix'), [rv(x.pre), b0])
        b = ite(lt(b0, I(1)), I(1), ite(lt(n, b0), n, b0))
        some = lt(I(0), n)
        k = fresh('k', 0, MAXLEN); acc = fresh('acc', sort='mat')
        c, r = delem(mk('dmat', M, 'adj'), k).args
        cnt = Ev(W.core).fold(mcount(M), mnewm('f64'), lam(k, minc(acc, tdiv(c, b), tdiv(r, b), 'f64'), acc))
        fb = fop('i2f', b)
        want = mmul(mmind(cnt, ceildiv(n, b)), fop('div', fconst(1.0), fop('mul', fb, fb)))
        qa, qb = V('qa'), V('qb')
        ctx = band(R.pc, some)
        got = R.ret
        ck.total('average pooling', fn, R)
        ck.eq('average pooling: the result of an empty graph is empty', fn, mdim(got), I(0), band(R.pc, bnot(some)))
        ck.eq('average pooling: one block per started group of vertices', fn, mdim(got), mdim(want), ctx)
        ck.eq('average pooling: each entry is the edge density of its block', fn, mget(got, qa, qb, 'f64'), mget(want, qa, qb, 'f64'), ctx)
        ck.eq('average pooling: an entry for each block with an edge', fn, mcount(got), mcount(want), ctx)
    sect(ck, 'find_avg_pool_matrix', f'{SG}::find_avg_pool_matrix', f)

def with_pool(x):
    key = x.key('find_avg_pool_matrix')
    h = contracts.PoolLayer(key)
    x.con = [(h.match, h)] + list(x.con)
    return x

def summarised(f):
    """f, or when unrolling its constant loops outgrows the budget, f over summarised loops"""
    def g(fn):
        try:
            with Limit(60): f(fn)
        except (TimeUp, RecursionError):
            old = Ev.UNROLL
            Ev.UNROLL = 4
            try: f(fn)
            finally: Ev.UNROLL = old
    return g

def o_compress(ck, W, asp=None):
    def f(fn):
        x = with_pool(Gx(ck, W)); M = x.M; n = mdim(M); lvl0 = byte('lvl')
        R = x.run(x.key('compress'), [rv(x.pre), lvl0])
        g = R.ret
        P = contracts.pool(M, I(8))
        some = lt(I(0), n)
        lvl = clampi(lvl0, I(1), I(64))
        qa, qb = V('qa'), V('qb')
        ck.total('compress', fn, R)
        o = lambda m, tr=GR: x.obs(m, g, ty=CG, trait=tr)
        ck.eq('compress: directedness is kept', fn, o('is_undirected'), G(x.und), R.pc)
        ck.eq('compress: vertex count is kept', fn, o('vertex_count'), n, R.pc)
        ck.eq('compress: the level is recorded, clamped to 1..=64', fn, o('compression_level', None), lvl, R.pc)
        k = fresh('k', 0, MAXLEN); acc = fresh('acc', sort='mat')
        e, c, r = delem(mk('dmat', P, 'f64'), k).args
        # kept blocks hold exactly the edges of the block
        cell = [ite(min_(M, add(scale(c, 8), I(i % 8)), add(scale(r, 8), I(i // 8))), I(1), I(0)) for i in range(64)]
        val = add(*[scale(b, 1 << i) for i, b in enumerate(cell)])
        edim = ite(eq(n, I(0)), I(1), tdiv_ceil8(n))
        M0 = mset(mnewm('u64'), I(0), sub(edim, I(1)), I(0), 'u64')
        F = Ev(W.core).fold
        got = C.Cmp().under(mat1(g), some)
        keep = None
        if got.op == 'app' and got.args[0] == 'fold' and got.args[1] is mcount(P):
            step = lam_apply(got.args[3], k, acc)
            if step.op == 'app' and step.args[0] == 'msetg' and step.args[1] is acc: keep = step.args[2].args[0]
        if keep is not None:
            try: kept(ck, fn, keep, e, n, lvl0)
            except Unsupported: keep = None
        if keep is None: keep = le(lvl, add(*cell))           # not recognised block by block: compared as a whole
        want = F(mcount(P), M0, lam(k, mset(acc, val, c, r, 'u64', keep), acc))
        ctx = band(R.pc, some)
        ck.eq('compress: a kept block holds exactly its edges, other blocks none', fn, mget(got, qa, qb, 'u64'), mget(want, qa, qb, 'u64'), ctx)
        ck.eq('compress: matrix dimension', fn, mdim(got), mdim(want), ctx)
        tot = summ(mcount(P), lam(k, ite(keep, add(*cell), I(0))))
        ck.eq('compress: the edge count is the number of edges in kept blocks', fn, o('edge_count'), ite(le(tot, I(U64)), tot, I(U64)), ctx)
        e0 = band(R.pc, bnot(some))
        u = C.Cmp()                                          # pooling an empty graph gives an empty matrix (o_pool)
        none = lambda t: tm.subst(u.under(t, e0), {u.under(P, e0): mnewm('f64')})
        ck.eq('compress: an empty graph has no edges', fn, none(o('edge_count')), I(0), e0)
        ck.eq('compress: an empty graph has no blocks', fn, none(mget(mat1(g), qa, qb, 'u64')), I(0), e0)
    sect(ck, 'compress', f'{SG}::compress', summarised(f))

class Conc(Exception): pass

def ceval(x, env, memo):
    """constant folding of an extracted expression at one point of its (finite) domain"""
    r = memo.get(x)
    if r is None: r = memo[x] = _ceval(x, env, memo)
    return r
def _ceval(x, env, memo):
    if x in env: return env[x]
    ev = lambda t: ceval(t, env, memo)
    if isinstance(x, B):
        while x.a is not None: x = x.h if ev(x.a) else x.l
        return x is TRUE
    o = x.op
    if o == 'int': return x.args[0]
    if o == 'fconst': return tm.fval(x)
    if o == 'g': return ev(x.args[0])
    if o == 'ite': return ev(x.args[1]) if ev(x.args[0]) else ev(x.args[2])
    if o == 'le': return sum(c * ev(t) for t, c in x.args[0]) <= x.args[1]
    if o == 'lin':
        c, d = tm.lin_parts(x)
        return c + sum(q * ev(t) for t, q in d.items())
    if o == 'mul': return ev(x.args[0]) * ev(x.args[1])
    if o in ('div', 'mod'):
        b = ev(x.args[1])
        if b == 0: raise Conc('division by zero')
        a = ev(x.args[0])
        return a // b if o == 'div' else a % b
    if o in ('fle', 'flt', 'feq'):
        a, b = ev(x.args[0]), ev(x.args[1])
        return a <= b if o == 'fle' else a < b if o == 'flt' else a == b
    if o == 'f':
        v = [ev(a) for a in x.args[1:]]
        f = x.args[0]
        if f == 'add': return v[0] + v[1]
        if f == 'sub': return v[0] - v[1]
        if f == 'mul': return v[0] * v[1]
        if f == 'div' and v[1] != 0: return v[0] / v[1]
        if f == 'i2f': return float(v[0])
        if f == 'neg': return -v[0]
    raise Conc(f'{o} {x.args[0] if x.args else ""}')

def kept(ck, fn, keep, e, n, lvl0):
    """the guard of a block, over every level, block size and number of edges: at least `level` edges"""
    nm = 'compress: a block is kept exactly when it has at least as many edges as the level'
    d = fresh('density', sort='float')
    keep = tm.bsubst(keep, {e: d}, {}); e = d
    big = C.Cmp().under(keep, le(I(8), n))
    if occursg(n, big): raise Unsupported('the block guard depends on the size of a large graph')
    cases = [(8, big)] + [(b, keep) for b in range(1, 8)]
    tot = 0
    for b, g in cases:
        mult = 1.0 / (float(b) * float(b))
        for L in range(256):
            for cnt in range(1, b * b + 1):
                tot += 1
                try: v = ceval(g, {n: b, lvl0: L, e: cnt * mult}, {})
                except Conc as c: raise Unsupported(f'block guard: {c}')
                if v != (cnt >= min(max(L, 1), 64)):
                    d = f'level {L}, {cnt} edges in a block of {b}x{b}: {"kept" if v else "dropped"}'
                    ck.viol(nm, fn, d); return
    ck.ok(nm, fn, f'{tot} combinations')

def occursg(t, g): return t in tm.subterms(G(g))

import math
def fconsts(gs):
    return sorted({tm.fval(t) for g in gs for t in tm.subterms(g) if not isinstance(t, B) and t.op == 'fconst'})

def orderonly(g, vs):
    """the guard uses the values only through comparisons, so it is constant on each cell of the order arrangement"""
    for t in tm.subterms(G(g)):
        if isinstance(t, B) or t in vs or t.op in ('fle', 'flt', 'feq', 'ite', 'g', 'fconst', 'sym'): continue
        if t.op == 'f': return False
    return True

def fcells(consts, lo, hi, m):
    """m points in every open interval between the constants within [lo, hi], and the constants"""
    cs = sorted({c for c in consts if lo <= c <= hi} | {c for c in (lo, hi) if not math.isinf(c)})
    pts = set(cs)
    ends = ([-math.inf] if math.isinf(lo) else []) + cs + ([math.inf] if math.isinf(hi) else [])
    for a, b in zip(ends, ends[1:]):
        if math.isinf(a) and math.isinf(b): new = [-1.5, 0.5, 1.5]
        elif math.isinf(a): new = [a, b - 1 - abs(b), b - 2 - abs(b)]
        elif math.isinf(b): new = [a + 1 + abs(a), a + 2 + abs(a), b]
        else: new = [a + (b - a) * q for q in (0.25, 0.5, 0.75)]
        pts |= set(new[:m] if not (math.isinf(a) or math.isinf(b)) else new)
    return sorted(pts)

def o_approx(ck, W, asp=None):
    def f(fn):
        x = with_pool(Gx(ck, W)); M = x.M; n = mdim(M); b0 = V('b'); t0 = sym('threshold', sort='float')
        R = x.run(x.key('approximate'), [rv(x.pre), b0, t0])
        g = R.ret
        real = feq(t0, t0)                                    # a threshold that is a number
        u = C.Cmp()
        ck.total('approximate', fn, R, real)
        triv = bor_(le(b0, I(1)), le(n, I(1)))
        ctx0 = band(R.pc, band(real, triv))
        x.same('approximate: blocks of one vertex, or one vertex at most, leave the graph as it is', fn, u.under(g, ctx0), x.und, M, ctx0)
        ctx = band(R.pc, band(real, bnot(triv)))
        P = u.under(contracts.pool(M, b0), ctx)
        k = fresh('k', 0, MAXLEN); acc = fresh('acc', sort='mat')
        e, c, r = delem(mk('dmat', P, 'f64'), k).args
        b = ite(lt(n, b0), n, b0)
        thr = ite(flt(fconst(1.0), t0), fconst(1.0), ite(flt(t0, fconst(1e-18)), fconst(1e-18), t0))
        keep = fle(thr, e)
        got = u.under(mat1(g), ctx)
        M0 = mset(mnewm('adj'), I(0), sub(ceildiv(n, b), I(1)), I(0), 'adj')
        def whole(why):
            # the result is not recognised block by block: compare it as a whole
            want = Ev(W.core).fold(u.under(mcount(P), ctx), M0, lam(k, addedge(acc, x.und, c, r, keep), acc))
            x.same('approximate: the edges are the blocks that meet the threshold', fn, u.under(g, ctx), x.und, want, ctx)
        if not (got.op == 'app' and got.args[0] == 'fold' and got.args[1] is u.under(mcount(P), ctx)):
            return whole('approximate does not fold over the pooled blocks')
        step = lam_apply(got.args[3], k, acc)
        bad = []
        # the code's own decision which blocks become edges, over every ordering of density, threshold and constants
        kp = pred('meets', e)
        d = fresh('density', sort='float')
        try: step = regroup(step, acc, lambda q: approx_keep(ck, fn, tm.bsubst(q, {e: d}, {}), tm.bsubst(keep, {e: d}, {}), d, t0, x.und, kp, bad))
        except Unsupported as why:
            if not bad: whole(str(why))
            return
        ck.ok('approximate: a block becomes an edge exactly when its density meets the threshold, clamped to 1e-18..=1', fn)
        new = Ev(W.core).fold(got.args[1], got.args[2], lam(k, step, acc))
        g2 = tm.subst(u.under(g, ctx), {got: new})
        if any(t.op == 'app' and t.args[0] in ('fold', 'foldn') and t is not new and any(a is got.args[1] for a in t.args[1:3]) for t in tm.subterms(g2) if isinstance(t, T)):
            return whole('the result also depends on the blocks in another way')
        want = Ev(W.core).fold(got.args[1], M0, lam(k, addedge(acc, x.und, c, r, kp), acc))
        x.same('approximate: the edges are the blocks that meet the threshold', fn, g2, x.und, want, ctx)
    sect(ck, 'approximate', f'{SG}::approximate', f)

def regroup(step, acc, f):
    if step is acc: return acc
    if not (step.op == 'app' and step.args[0] == 'msetg'): raise Unsupported('approximate does not add edges one at a time')
    return app('msetg', regroup(step.args[1], acc, f), G(f(step.args[2].args[0])), *step.args[3:], sort='mat')


def approx_keep(ck, fn, code, spec, d, t0, und, kp, bad):
    cs = fconsts([G(code), G(spec)])
    if not orderonly(code, (d, t0)): raise Unsupported('the block guard computes with the density or the threshold')
    und_at = sorted(batoms(und), key=lambda a: a.key)
    kinds = {'keep', 'keep and undirected'}
    for t in fcells(cs, -math.inf, math.inf, 3):
        for x in fcells(cs + [t], 0.0, 1.0, 3):
            if x == 0: continue
            for z in (True, False):
                g = cofactor(code, und_at[0], z) if len(und_at) == 1 else code
                try: got = ceval(g, {d: x, t0: t}, {})
                except Conc as c: raise Unsupported(f'block guard: {c}')
                w = ceval(spec, {d: x, t0: t}, {})
                if got != w: kinds.discard('keep')
                if got != (w and z): kinds.discard('keep and undirected')
                if not kinds:
                    nm = 'approximate: a block becomes an edge exactly when its density meets the threshold, clamped to 1e-18..=1'
                    bad.append(1); ck.viol(nm, fn, f'threshold {t!r}, density {x!r}, undirected {z}: {"an edge" if got else "no edge"}'); raise Unsupported('the comparison of the edges rests on the decision above')
    return kp if 'keep' in kinds else band(kp, und)

# ------------------------------------------------------------------ parameters out of range
def o_clamped(ck, W, asp=None):
    """an operation of a parameter is the operation of the parameter clamped to its range"""
    def pair(x, meth, args, clamped, ctx, fn, name):
        R = x.run(x.key(meth), args); S = x.run(x.key(meth), clamped)
        ck.eq(f'{name}: returns for the parameter when it returns for the nearest allowed one', fn, G(R.pc), G(S.pc), ctx)
        return R.ret, S.ret, band(ctx, band(R.pc, S.pc))
    def pool(fn):
        x = Gx(ck, W); n = mdim(x.M); b = V('b'); qa, qb = V('qa'), V('qb')
        g, w, c = pair(x, 'find_avg_pool_matrix', [rv(x.pre), b], [rv(x.pre), clampi(b, I(1), n)], lt(I(0), n), fn, 'block dimension (pooling)')
        ck.eq('block dimension (pooling): same entries', fn, mget(g, qa, qb, 'f64'), mget(w, qa, qb, 'f64'), c)
        ck.eq('block dimension (pooling): same dimension', fn, mdim(g), mdim(w), c)
        ck.eq('block dimension (pooling): same number of entries', fn, mcount(g), mcount(w), c)
    sect(ck, 'find_avg_pool_matrix', f'{SG}::find_avg_pool_matrix', pool)
    def graphs(x, name, fn, g, w, ty, c):
        a, b = V('qa'), V('qb')
        for m in ('is_undirected', 'vertex_count', 'edge_count'):
            ck.eq(f'{name}: same {m}', fn, x.obs(m, g, ty=ty), x.obs(m, w, ty=ty), c)
        ck.eq(f'{name}: same edges', fn, x.obs('does_edge_exist', g, a, b, ty=ty), x.obs('does_edge_exist', w, a, b, ty=ty), c)
    def approx(fn):
        x = with_pool(Gx(ck, W)); n = mdim(x.M); b = V('b'); t = sym('threshold', sort='float')
        ct = ite(flt(fconst(1.0), t), fconst(1.0), ite(flt(t, fconst(1e-18)), fconst(1e-18), t))
        g, w, c = pair(x, 'approximate', [rv(x.pre), b, t], [rv(x.pre), clampi(b, I(1), n), t], band(feq(t, t), lt(I(0), n)), fn, 'block dimension (approximation)')
        graphs(x, 'block dimension (approximation)', fn, g, w, SG, c)
        g, w, c = pair(x, 'approximate', [rv(x.pre), b, t], [rv(x.pre), b, ct], feq(t, t), fn, 'threshold')
        graphs(x, 'threshold', fn, g, w, SG, c)
    sect(ck, 'approximate', f'{SG}::approximate', approx)
    def comp(fn):
        x = with_pool(Gx(ck, W)); l = byte('lvl')
        g, w, c = pair(x, 'compress', [rv(x.pre), l], [rv(x.pre), clampi(l, I(1), I(64))], TRUE, fn, 'level (compression)')
        graphs(x, 'level (compression)', fn, g, w, CG, c)
        ck.eq('level (compression): same level', fn, x.obs('compression_level', g, ty=CG, trait=None), x.obs('compression_level', w, ty=CG, trait=None), c)
    sect(ck, 'compress', f'{SG}::compress', summarised(comp))
    def build(fn):
        x = Cx(ck, W); x.ty = BD; l = byte('lvl'); u, n = G(pred('undq', sym('u', None, None, 'obj'))), V('n')
        g, w, c = pair(x, 'new', [u, n, l], [u, n, clampi(l, I(1), I(64))], TRUE, fn, 'level (builder)')
        Fg, Fw = (x.run(x.key('finish'), [v], pc=c) for v in (g, w))
        c = band(Fg.pc, Fw.pc)
        graphs(x, 'level (builder)', fn, Fg.ret, Fw.ret, CG, c)
        ck.eq('level (builder): same level', fn, x.obs('compression_level', Fg.ret, ty=CG, trait=None), x.obs('compression_level', Fw.ret, ty=CG, trait=None), c)
    sect(ck, 'builder', f'{BD}::new', build)

