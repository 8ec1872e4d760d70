"""Obligations on the uncompressed graph, on top of the matrix contract (see contracts.py)."""
import re
from vals import *
from mat import *
import vals, terms as tm, arith, contracts, stdm
from props import state
import cmp as C
from ev import Ev
from chk import Anchor, Res
from props.names import *

GR = 'GraphRepresentation'
SG = 'StandardGraph'
CG = 'CompressedGraph'
V = lambda n: sym(n, 0, U64)

class Gx:
    def __init__(self, ck, W, ty=SG, name='g'):
        self.ck, self.W, self.p, self.ty = ck, W, W.core, ty
        self.con, self.layer = contracts.layer()
        self.gty = ty_of(self.p, ty)
        self.pre = W.typed(name, self.gty, self.con)
        if self.pre.op != 'tup': raise Unsupported('graph is not a plain struct')
        ms = [x for x in self.pre.args if sort_of(x) == 'mat']
        if len(ms) != 1: raise Unsupported('the graph holds more than one matrix')
        self.M = ms[0]
        self.und = asB(self.obs('is_undirected', self.pre))
        self.settle()
    def settle(self):
        """every field accounted for by an observer, or a reachable graph instead of an unknown one (see state.py)"""
        known = [self.M, G(self.und)]
        for meth, spec in (('edge_count', mcount(self.M)), ('vertex_count', mdim(self.M))):
            try: v = self.obs(meth, self.pre)
            except (Anchor, Unsupported): continue
            if self.ty == SG and v is not spec and any(v is l for l in state.leaves(self.pre)):
                # the observer answers from a field of its own: each operation has to keep it equal to the matrix's
                self.pre = state.replace(self.pre, v, spec); v = spec
            known.append(v)
        if self.ty == CG:
            try: known.append(self.obs('compression_level', self.pre, trait=None))
            except (Anchor, Unsupported): pass
        more = state.extra(self.p, self.gty, self.pre, known)
        if not more: return
        if self.ty != SG: raise Unsupported('state beyond the observers: ' + ', '.join(more))
        und = pred('undq', sym('kind', None, None, 'obj'))
        g = ite(und, self.run(self.key('new_undirected'), []).ret, self.run(self.key('new_directed'), []).ret)
        for meth, n in (('add_edge', 1), ('add_edge', 2), ('delete_edge', 3)):
            g = self.run(self.key(meth), [mk('ref', 'P0'), V(f'from{n}'), V(f'to{n}')], {'P0': g}).st['P0']
        self.ck.note(f'{self.ty} has fields no observer accounts for ({", ".join(more)}): checked after short histories only')
        ms = [x for x in g.args if sort_of(x) == 'mat']
        if len(ms) != 1: raise Unsupported('state beyond the observers: ' + ', '.join(more))
        self.pre, self.M, self.und = g, ms[0], asB(self.obs('is_undirected', g))
    def key(self, m, trait=None, ref=False): return K(self.p, self.ty, m, trait, ref)
    def run(self, key, args, st=None, pc=TRUE): return self.W.run(self.ck, key, args, st, self.con, pc=pc)
    def obs(self, meth, g, *args, trait=GR, ty=None):
        R = self.run(K(self.p, ty or self.ty, meth, trait), [rv(g), *args])
        if R.pc is FALSE: raise Unsupported(meth + ' never returns')
        self.obspc = R.pc
        return R.ret
    def mut(self, meth, *args, trait=None):
        return self.run(self.key(meth, trait), [mk('ref', 'P0'), *args], {'P0': self.pre})
    # ---- comparing a resulting graph with a specified one
    def same(self, name, fn, g, und, M, ctx, asp=('edges', 'vertices', 'count', 'dir'), ty=SG, vctx=None):
        ck = self.ck
        a, b = V('qa'), V('qb')
        if 'dir' in asp: ck.eq(f'{name}: directedness', fn, self.obs('is_undirected', g, ty=ty), G(und), ctx)
        if 'vertices' in asp: ck.eq(f'{name}: vertex count', fn, self.obs('vertex_count', g, ty=ty), mdim(M), ctx if vctx is None else vctx)
        if 'edges' in asp: ck.eq(f'{name}: exactly the specified edges', fn, self.obs('does_edge_exist', g, a, b, ty=ty), G(min_(M, a, b)), ctx)
        if 'count' in asp: ck.eq(f'{name}: edge count is the number of edges', fn, self.obs('edge_count', g, ty=ty), mcount(M), ctx)

def sect(ck, name, fn, f): ck.section(name, fn, lambda: f(fn))

def addedge(M, und, f, t, g=TRUE):
    M = mset(M, I(1), f, t, 'adj', g)
    return mset(M, I(1), t, f, 'adj', band(g, und))

def o_new(ck, W, asp):
    for meth, und in (('new_undirected', TRUE), ('new_directed', FALSE)):
        def f(fn):
            x = Gx(ck, W)
            R = x.run(x.key(meth), [])
            ck.total(f'{meth}', fn, R)
            x.same(f'{meth}: empty graph', fn, R.ret, und, mnewm('adj'), R.pc, asp)
        sect(ck, meth, f'{SG}::{meth}', f)

def o_add_edge(ck, W, asp):
    def f(fn):
        x = Gx(ck, W); a, b = V('from'), V('to')
        R = x.mut('add_edge', a, b)
        ck.total('add_edge', fn, R)
        x.same('add_edge: the edge (and its reverse when undirected) is added, all else unchanged', fn, R.st['P0'], x.und, addedge(x.M, x.und, a, b), R.pc, asp)
    sect(ck, 'add_edge', f'{SG}::add_edge', f)

def o_del_edge(ck, W, asp):
    def f(fn):
        x = Gx(ck, W); a, b = V('from'), V('to')
        R = x.mut('delete_edge', a, b)
        ck.total('delete_edge', fn, R)
        M = mzero(mzero(x.M, a, b), b, a, x.und)
        x.same('delete_edge: the edge (and its reverse when undirected) is removed, all else unchanged', fn, R.st['P0'], x.und, M, R.pc, asp)
    sect(ck, 'delete_edge', f'{SG}::delete_edge', f)

def o_add_vertex(ck, W, asp):
    def f(fn):
        x = Gx(ck, W); v = V('v')
        L = app('to', sort='seq'); has = pred('given', sym('to?', None, None, 'obj'))
        R = x.mut('add_vertex', v, opt(has, rv(L)))
        ck.total('add_vertex', fn, R)
        k = fresh('k', 0, MAXLEN); acc = fresh('acc', sort='mat')
        n = seqlen(L)
        M1 = Ev(W.core).fold(n, x.M, lam(k, addedge(acc, x.und, v, at(L, k, 'u64')), acc))
        M1 = ite(has, M1, x.M)
        # the largest index is not a vertex; what naming it in the list does is not specified
        big = band(has, exists(n, lam(k, G(eq(at(L, k, 'u64'), I(U64))))))
        none = bor_(bnot(has), eq(n, I(0)))
        # without edges the vertex itself must exist afterwards; the largest index is not a vertex
        M = mset(M1, I(0), v, I(0), 'adj', band(none, bnot(lt(v, mdim(x.M)))))
        x.same('add_vertex: all listed edges are added and the vertex exists afterwards, all else unchanged', fn, R.st['P0'], x.und, M, R.pc, asp, vctx=band(R.pc, bnot(big)))
    sect(ck, 'add_vertex', f'{SG}::add_vertex', f)

def o_from(ck, W, asp):
    def f(fn):
        x = Gx(ck, W)
        R = x.run(x.key('directed_from'), [x.M])
        ck.total('directed_from', fn, R)
        x.same('directed_from: wraps the matrix', fn, R.ret, FALSE, x.M, R.pc, asp)
    sect(ck, 'directed_from', f'{SG}::directed_from', f)
    def f2(fn):
        x = Gx(ck, W)
        R = x.run(x.key('undirected_from'), [x.M])
        ck.total('undirected_from', fn, R)
        ok, v = okpart(x, R)
        k = fresh('k', 0, MAXLEN)
        e = delem(mk('dmat', x.M, 'adj'), k)
        asym = exists(mcount(x.M), lam(k, G(bnot(min_(x.M, e.args[1], e.args[0])))))
        ck.eq('undirected_from: accepts exactly symmetric matrices', fn, G(ok), G(bnot(asym)), R.pc)
        if v is not None: x.same('undirected_from: wraps the matrix', fn, v, TRUE, x.M, band(R.pc, ok), asp)
    sect(ck, 'undirected_from', f'{SG}::undirected_from', f2)
    def f3(fn):
        x = Gx(ck, W)
        R = x.run(x.key('undirected_from_unchecked'), [x.M])
        ck.total('undirected_from_unchecked', fn, R)
        x.same('undirected_from_unchecked: wraps the matrix', fn, R.ret, TRUE, x.M, R.pc, asp)
    sect(ck, 'undirected_from_unchecked', f'{SG}::undirected_from_unchecked', f3)

def okpart(x, R):
    """(guard, payload) of the Ok variant"""
    r = R.ret
    if r.op == 'rv': r = r.args[0]
    if r.op != 'en': r = R.ev.expand(r, '?')
    a = {v: (g, f) for v, g, f in tm.en_alts(r)}
    g, f = a.get(0, (FALSE, None))
    return band(R.pc, g), (f[0] if f else None)

def o_queries(ck, W):
    x0 = []
    def q(meth, args, want, trait=None, what=''):
        def f(fn):
            x = Gx(ck, W)
            R = x.run(x.key(meth, trait), [rv(x.pre), *args])
            ck.eq(f'{meth}: {what}', fn, R.ret, want(x), R.pc)
            ck.total(f'{meth}', fn, R)
        sect(ck, meth, f'{SG}::{meth}', f)
    a, b = V('from'), V('to')
    q('does_edge_exist', [a, b], lambda x: G(min_(x.M, a, b)), GR, 'exactly the stored edges exist')
    q('vertex_count', [], lambda x: mdim(x.M), GR, 'the matrix dimension')
    q('edge_count', [], lambda x: mcount(x.M), GR, 'the number of stored edges')
    col = lambda x: app('colvec', x.M, a, sort='seq')
    row = lambda x: app('rowvec', x.M, a, sort='seq')
    q('get_vertex_out_edges', [a], lambda x: col(x), None, 'the targets of the edges leaving the vertex')
    q('get_vertex_out_degree', [a], lambda x: seqlen(col(x)), None, 'the number of edges leaving the vertex')
    def qin(meth, wantc, wantr, what):
        def f(fn):
            x = Gx(ck, W)
            R = x.run(x.key(meth), [rv(x.pre), a])
            ck.total(f'{meth}', fn, R)
            ck.eq(f'{meth}: {what} (directed)', fn, R.ret, wantr(x), band(R.pc, bnot(x.und)))
            # in an undirected graph a row equals the column with the same index
            r1 = C.Cmp().cmp(R.ret, wantc(x), band(R.pc, x.und)); r2 = C.Cmp().cmp(R.ret, wantr(x), band(R.pc, x.und))
            nm = f'{meth}: {what} (undirected)'
            if r1[0] == 'eq' or r2[0] == 'eq': ck.ok(nm, fn)
            elif 'unk' in (r1[0], r2[0]): ck.unk(nm, fn, r1[1])
            else: ck.confirm(nm, fn, R.ret, wantc(x), band(R.pc, x.und), r1[1], *r1[2:])
        sect(ck, meth, f'{SG}::{meth}', f)
    qin('get_vertex_in_edges', col, row, 'the sources of the edges entering the vertex')
    qin('get_vertex_in_degree', lambda x: seqlen(col(x)), lambda x: seqlen(row(x)), 'the number of edges entering the vertex')

def o_vectors(ck, W):
    """sparse vectors and their counts against the stored entries (matrix module)"""
    from props.matrix import Mx
    def g(fn):
        x = Mx(ck, W, 'adj')
        tab, tty = x.table(x.pre)
        vt = stdm.targs(tty)[1]
        q = x.idx('q')
        k = fresh('k', 0, MAXLEN)
        inner = mval(tab, q, vt)
        has = mhas(tab, q)
        n = ite(has, mlen(inner), I(0))
        R = W.run(ck, x.key('get_sparse_col_vector'), [rv(x.pre), q])
        x.returns('get_sparse_col_vector', x.ty + '::get_sparse_col_vector', R)
        want = seqite(has, comp(mlen(inner), lam(k, elt(mkey(inner, k, 'u64')))), EMPTY)
        ck.eq('column vector: each stored row of the column once', x.ty + '::get_sparse_col_vector', R.ret, want, R.pc)
        R = W.run(ck, x.key('col_nonzero_entry_count'), [rv(x.pre), q])
        x.returns('col_nonzero_entry_count', x.ty + '::col_nonzero_entry_count', R)
        ck.eq('column count: number of stored rows of the column', x.ty + '::col_nonzero_entry_count', R.ret, n, R.pc)
        key = mkey(tab, k, 'u64')
        inrow = mhas(mval(tab, key, vt), q)
        R = W.run(ck, x.key('get_sparse_row_vector'), [rv(x.pre), q])
        x.returns('get_sparse_row_vector', x.ty + '::get_sparse_row_vector', R)
        want = comp(mlen(tab), lam(k, seqite(inrow, elt(key), EMPTY)))
        ck.eq('row vector: each column with that row stored, once', x.ty + '::get_sparse_row_vector', R.ret, want, R.pc)
        R = W.run(ck, x.key('row_nonzero_entry_count'), [rv(x.pre), q])
        x.returns('row_nonzero_entry_count', x.ty + '::row_nonzero_entry_count', R)
        want = summ(mlen(tab), lam(k, ite(inrow, I(1), I(0))))
        ck.eq('row count: number of columns with that row stored', x.ty + '::row_nonzero_entry_count', R.ret, want, R.pc)
    sect(ck, 'sparse vectors', 'CsrAdjacencyMatrix', g)

def o_clone(ck, W):
    def f(fn):
        x = Gx(ck, W)
        R = x.run(x.key('clone', 'Clone'), [rv(x.pre)])
        ck.total('clone', fn, R)
        x.same('clone: equal to the original', fn, R.ret, x.und, x.M, R.pc)
    sect(ck, 'clone', f'{SG}::clone', f)

CLONE = re.compile(r'^<(.*) as std::clone::Clone>::(clone|clone_from)$')

def alike(ck, p, name, fn, a, b, ty, ctx):
    """two values of one record type agree in every field; matrices by their observations"""
    if a is b: ck.ok(name, fn, 'identical'); return
    kind = contracts.mat_kind(ty)
    fs = p.types[ty]['variants'][0]['fields'] if ty in p.types and p.types[ty].get('variants') else None
    if fs and a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args) == len(fs):
        for k, (u, v) in enumerate(zip(a.args, b.args)): alike(ck, p, f'{name}: {fs[k][0]}', fn, u, v, fs[k][1], ctx)
    elif kind and sort_of(a) == 'mat' and sort_of(b) == 'mat':
        q, r = V('qa'), V('qb')
        ck.eq(f'{name}: dimension', fn, mdim(a), mdim(b), ctx)
        ck.eq(f'{name}: number of entries', fn, mcount(a), mcount(b), ctx)
        if kind == 'adj': ck.eq(f'{name}: entries', fn, G(min_(a, q, r)), G(min_(b, q, r)), ctx)
        else: ck.eq(f'{name}: entries', fn, mget(a, q, r, kind), mget(b, q, r, kind), ctx)
    else: ck.eq(name, fn, a, b, ctx)

def o_copies(ck, W):
    """every hand-written or derived Clone of a graph type makes an equal copy"""
    p = W.core
    con, _ = contracts.layer()
    for key in sorted(p.bodies):
        m = CLONE.match(key)
        if not m or 'matrix::' in m.group(1) or m.group(1) not in p.types: continue
        def f(fn, key=key, ty=m.group(1), meth=m.group(2)):
            src = W.typed('source', ty, con, p)
            st = {}
            args = [rv(src)]
            if meth == 'clone_from':
                st = {'P0': W.typed('target', ty, con, p)}
                args = [mk('ref', 'P0'), rv(src)]
            R = W.run(ck, key, args, st, con)
            ck.total(meth, fn, R)
            alike(ck, p, f'{meth}: equal to the original', fn, R.ret if meth == 'clone' else R.st['P0'], src, ty, R.pc)
        ck.section(m.group(2), key, lambda f=f, key=key: f(key))

def o_iter(ck, W):
    def f(fn):
        x = Gx(ck, W)
        R = x.run(x.key('into_iter', 'IntoIterator', ref=True), [rv(x.pre)])
        it = R.ret.args[0] if R.ret.op == 'tup' and len(R.ret.args) == 1 else R.ret
        ck.eq('graph iteration starts at the first edge of the graph\'s matrix', fn, it, mk('iter', mk('src', mk('dmat', x.M, 'adj'), I(0))), R.pc)
    sect(ck, 'into_iter', f'{SG}::into_iter', f)
    def f2(fn):
        x = Gx(ck, W)
        key = K(x.p, 'StandardGraphIter', 'next', 'Iterator')
        i = sym('i', 0, MAXMAP)
        ity = ty_of(x.p, 'StandardGraphIter')
        fs = x.p.types[ity]['variants'][0]['fields']
        if len(fs) != 1: raise Unsupported('graph iterator state')
        mi = lambda j: tup(mk('iter', mk('src', mk('dmat', x.M, 'adj'), j)))
        R = x.run(key, [mk('ref', 'P0')], {'P0': mi(i)})
        more = lt(i, mcount(x.M))
        want = opt(more, delem(mk('dmat', x.M, 'adj'), i))
        ck.eq('graph iteration yields the matrix entries in turn', fn, R.ret, want, R.pc)
        ck.eq('graph iteration advances by one', fn, R.st['P0'], mi(add(i, I(1))), band(R.pc, more))
    sect(ck, 'next', 'StandardGraphIter::next', f2)
    from props import iterate
    for key, meth in iterate.overrides(W.core, 'StandardGraphIter'):
        def f3(fn, key=key, meth=meth):
            x = Gx(ck, W)
            i = sym('i', 0, MAXMAP)
            n = mcount(x.M)
            mi = lambda j: tup(mk('iter', mk('src', mk('dmat', x.M, 'adj'), j)))
            t = x.p.bodies[key]['locals'][1][0]
            inb = le(i, n)
            a = mk('ref', 'P0') if t.startswith('&mut') else rv(mi(i)) if t.startswith('&') else mi(i)
            if meth == 'nth':
                k = sym('n', 0, U64)
                R = x.run(key, [a, k], {'P0': mi(i)})
                ck.total('nth', fn, R, inb)
                at = add(i, k)
                more = lt(at, n)
                c = band(R.pc, inb)
                ck.eq('nth: the item n steps ahead', fn, R.ret, opt(more, delem(mk('dmat', x.M, 'adj'), at)), c)
                ck.eq('nth: continues after that item', fn, R.st['P0'], mi(add(at, I(1))), band(c, more))
            else:
                iterate.judge(ck, fn, meth, x.run(key, [a], {'P0': mi(i)}), sub(n, i), inb)
        ck.section(meth, key, lambda f3=f3, key=key: f3(key))

# ------------------------------------------------------------------ symmetry
def symmetric(M, ctx, hyp, depth=0):
    """decide that matrix term M is symmetric under ctx; hyp: matrix atoms assumed symmetric.
    -> ('eq'|'ne'|'unk', why)"""
    if depth > 20: return ('unk', 'depth')
    if M in hyp: return ('eq', '')
    if M.op == 'ite':
        for g, s in ((M.args[0], M.args[1]), (bnot(M.args[0]), M.args[2])):
            c2 = band(ctx, g)
            if c2 is FALSE: continue
            r = symmetric(s, c2, hyp, depth + 1)
            if r[0] != 'eq': return r
        return ('eq', '')
    if M.op == 'app':
        n = M.args[0]
        if n == 'matnew': return ('eq', '')
        if n == 'mmind': return symmetric(M.args[1], ctx, hyp, depth + 1)
        if n in ('msetg', 'mzerog'):
            # the chain down to a base without set/zero
            B_ = M
            while B_.op == 'app' and B_.args[0] in ('msetg', 'mzerog', 'mmind'): B_ = B_.args[1]
            r = symmetric(B_, ctx, hyp, depth + 1)
            if r[0] != 'eq': return r
            # writes that come in mirrored pairs
            ops, q = [], M
            while q is not B_:
                if q.args[0] == 'msetg': ops.append(('s', q.args[3], q.args[2].args[0], q.args[4], q.args[5])); q = q.args[1]
                elif q.args[0] == 'mzerog': ops.append(('z', None, q.args[2].args[0], q.args[3], q.args[4])); q = q.args[1]
                else: q = q.args[1]
            if len({(o[0], o[1]) for o in ops}) == 1:
                tab = {(o[3], o[4]): restrict(o[2], ctx) for o in ops}
                if all(tab.get((r_, c_)) is g_ for (c_, r_), g_ in tab.items()): return ('eq', '')
                if len(ops) > 20: return ('unk', 'many writes')
            gi = 2 if n in ('msetg', 'mzerog') else None
            g = M.args[gi].args[0]
            if g is not TRUE and len(ops) <= 3:
                # the last write happens, or it does not
                c1 = band(ctx, bnot(g))
                r = ('eq', '') if C.Cmp().vac(c1) else symmetric(M.args[1], c1, hyp, depth + 1)
                if r[0] != 'eq': return r
                c2 = band(ctx, g)
                if c2 is FALSE: return ('eq', '')
                out = ('eq', '')
                for c3 in cubes(c2):
                    M2 = subst(M.args[1], C.Cmp().eqs(c3)); a2 = list(M.args)
                    env = C.Cmp().eqs(c3)
                    put = (lambda B2: mset(B2, subst(M.args[3], env), subst(M.args[4], env), subst(M.args[5], env), M.args[6])) if n == 'msetg' else \
                          (lambda B2: mzero(B2, subst(M.args[3], env), subst(M.args[4], env)))
                    r = symmetric(put(M2), bsubst(c3, env, {}), hyp, depth + 1)
                    if r[0] == 'ne': return r
                    if r[0] != 'eq': out = r
                return out
            a, b = fresh('qa', 0, U64 - 1), fresh('qb', 0, U64 - 1)
            base = rawpred_sym(B_)
            f, g = min_(M, a, b), min_(M, b, a)
            x = band(ctx, bxor(f, g))
            # hypothesis: the base is symmetric at every pair of coordinates mentioned
            for p in list(batoms(x)):
                if p.op == 'p' and p.args[0] == 'min' and symmetric(p.args[1], ctx, hyp, depth + 1)[0] == 'eq':
                    Bp = p.args[1]
                    # ... and stores entries inside its dimension only
                    x = band(x, biff(atom(p), rawmin(Bp, p.args[3], p.args[2])), bimp(atom(p), band(lt(p.args[2], mdim(Bp)), lt(p.args[3], mdim(Bp)))))
            if x is FALSE: return ('eq', '')
            try: w = arith.sat(x, steps=arith.Steps(20000))
            except arith.Budget: return ('unk', 'budget')
            if w is None: return ('eq', '')
            if all(C.plain(p) or (p.op == 'p' and p.args[0] == 'min') for p in batoms(x)):
                return ('ne', 'edge without its reverse when ' + arith.show_lits(w)[:500], bsubst(C.cube(w), {a: V('qa'), b: V('qb')}, {}))
            return ('unk', arith.show_lits(w)[:300])
        if n == 'fold':
            r = symmetric(M.args[2], ctx, hyp, depth + 1)
            if r[0] != 'eq': return r
            l = M.args[3]
            k = fresh('i', 0, MAXLEN); acc = fresh('acc', sort='mat')
            body = lam_apply(l, k, acc)
            return symmetric(body, band(ctx, lt(k, M.args[1])), hyp | {acc}, depth + 1)
    return ('unk', 'no symmetry argument for ' + show(M)[:200])

def cubes(b, lim=8):
    """the disjuncts of a guard (itself when there are many)"""
    out = []
    def go(b, acc):
        if b is FALSE or len(out) > lim: return
        if b is TRUE: out.append(acc); return
        go(b.h, band(acc, atom(b.a))); go(b.l, band(acc, bnot(atom(b.a))))
    go(b, TRUE)
    return out if len(out) <= lim else [b]

def rawpred_sym(B_): return None
def rawmin(B_, c, r): return min_(B_, c, r)

def matof(x, g, ty=SG):
    ms = [v for v in (g.args if g.op == 'tup' else ()) if sort_of(v) == 'mat']
    if len(ms) != 1: raise Unsupported('graph value')
    return ms[0]

def o_symm(ck, W):
    """every way of making or changing a graph keeps an undirected graph symmetric"""
    p = W.core
    gt = ty_of(p, SG)
    n = 0
    # private helpers are analysed inside the public functions that call them
    private = {k for i in p.items if not i['pub'] or i['unsafe'] for k in i['keys']}
    for key in sorted(p.bodies):
        b = p.bodies[key]
        if key in private or key.startswith('closure@') or '::tests::' in key or 'matrix::csr' in key.split(' as ')[0].split('::<')[0]: continue
        if b['crate_'] != 'graphrox': continue
        tys = [b['locals'][i + 1][0] for i in range(b['argc'])]
        ret = b['locals'][0][0]
        mutg = [i for i, t in enumerate(tys) if t == '&mut ' + gt]
        retg = gt in ret and not ret.startswith('&') and 'Iter' not in ret
        if not mutg and not retg: continue
        if b.get('unsafe') or 'unchecked' in key: continue      # documented obligation of the unsafe caller
        short = key.replace('graph::standard::', '').replace('graph::compressed::', '').replace('graph::graph_traits::', '').replace('std::convert::', '').replace('std::clone::', '')
        n += 1
        nid = f'f{n}'
        def f(fn):
            x = Gx(ck, W)
            st, args = {}, []
            hyp = set()
            for i, t in enumerate(tys):
                if i in mutg:
                    st[f'P{i}'] = x.pre; args.append(mk('ref', f'P{i}')); hyp.add(x.M)
                elif t == '&' + gt: args.append(rv(x.pre)); hyp.add(x.M)
                elif t == gt: args.append(x.pre); hyp.add(x.M)
                elif t.startswith('&mut '):
                    st[f'P{i}'] = W.typed(f'{nid}a{i}', t[5:], x.con); args.append(mk('ref', f'P{i}'))
                else: args.append(W.typed(f'{nid}a{i}', t, x.con))
            # an undirected graph is symmetric before the call
            R = x.run(key, args, st)
            outs = [(R.st[f'P{i}'], TRUE) for i in mutg]
            if retg:
                r = R.ret
                if ret == gt: outs.append((r, TRUE))
                else:
                    g, v = okpart(x, R)
                    if v is not None: outs.append((v, g))
            for g, c in outs:
                u = asB(x.obs('is_undirected', g))
                ctx = band(R.pc, c, u, bimp(TRUE, TRUE))
                M = matof(x, g)
                # hypotheses hold only while the source graph is undirected
                h = set(hyp)
                if h:
                    ctx_ok = arith.sat(band(ctx, bnot(x.und)), steps=arith.Steps(5000)) is None
                    if not ctx_ok: h = set()
                r = symmetric(simp(M, ctx), ctx, h) if ctx is not FALSE else ('eq', '')
                if r[0] == 'unk' and 'undirected_from' in key:
                    # accepted only after every entry's mirror image was found
                    k = fresh('k', 0, MAXLEN)
                    e = delem(mk('dmat', M, 'adj'), k)
                    asym = exists(mcount(M), lam(k, G(bnot(min_(M, e.args[1], e.args[0])))))
                    r2 = C.Cmp().cmp(G(band(ctx, asym)), G(FALSE), TRUE)
                    if r2[0] == 'eq': r = ('eq', '')
                    elif r2[0] == 'ne': r = ('ne', r2[1])
                    else:
                        d = ck.refuted(G(band(ctx, asym)), G(FALSE), TRUE)
                        if d: r = ('ne', 'accepts a matrix with an unmatched entry ' + d)
                nm = 'an undirected graph is symmetric afterwards'
                if r[0] == 'eq': ck.ok(nm, fn)
                elif r[0] == 'ne' and ' an unmatched entry' in r[1]: ck.viol(nm, fn, r[1])
                elif r[0] == 'ne': qa, qb = V('qa'), V('qb'); ck.confirm(nm, fn, min_(M, qa, qb), min_(M, qb, qa), ctx, r[1], *r[2:])
                else:
                    qa, qb = V('qa'), V('qb')
                    old = ck.gens
                    if any(t in ('&[u8]', '&Vec<u8>') or t.startswith('&[u8;') for t in tys):
                        from props import codec
                        ck.gens = [codec.gen_std, codec.gen_cmp]
                    try: d = ck.refuted(min_(M, qa, qb), min_(M, qb, qa), ctx)
                    finally: ck.gens = old
                    if d: ck.viol(nm, fn, 'edge without its reverse: ' + d)
                    else: ck.unk(nm, fn, r[1])
        sect(ck, 'symmetry', short, f)
    if n < 6: ck.viol('functions that make or change graphs', SG, f'only {n} found')

def simp(M, ctx): return C.Cmp().under(M, ctx)

def o_text(ck, W):
    """the text of a graph is the text of its matrix"""
    def f(fn):
        x = Gx(ck, W)
        R = x.run(x.key('matrix_string', GR), [rv(x.pre)])
        ck.total('matrix text', fn, R)
        s = app('mattext', x.M, sort='seq')
        ok, v = okpart(x, R)
        if v is None: ck.viol('matrix text: produced', fn, 'never succeeds'); return
        ck.eq('matrix text: the text of the adjacency matrix', fn, v, s, ok)
        ck.eq('matrix text: produced whenever that of the matrix is', fn, G(ok), G(pred('textok', s)))
    sect(ck, 'matrix_string', f'{SG}::matrix_string', f)
