"""Obligations on the two sparse matrices, decided against the matrix module's own source.

All of them are observational: a mutator is evaluated on an unknown matrix, and the observers
(get_entry, dimension, entry_count) are evaluated on the matrix before and after, at unknown
coordinates.  How the fields are laid out or updated does not matter."""
from vals import *
from mat import tmax
import re
import vals, terms as tm, arith
from chk import Anchor
from props.names import *
from props import state

TR = 'MatrixRepresentation'

class Mx:
    """one matrix instance (adjacency, or square of one element type)"""
    def __init__(self, ck, W, kind):
        self.ck, self.W, self.kind = ck, W, kind
        self.p = W.core
        self.ty = 'CsrAdjacencyMatrix' if kind == 'adj' else f'CsrSquareMatrix<{kind}>'
        self.ety = 'u8' if kind == 'adj' else kind
        self.mty = ty_of(self.p, self.ty)
        self.zero = fconst(0.0) if kind in ('f64', 'f32') else I(0)
        self.one = fconst(1.0) if kind in ('f64', 'f32') else I(1)
        self.pre = W.typed('m', self.mty)
        if self.pre.op != 'tup': raise Unsupported('matrix is not a plain struct')
        self.settle()
    def settle(self):
        """every field accounted for by an observer, or a reachable matrix instead of an unknown one (see state.py)"""
        known = [self.table(self.pre)[0]]
        for meth in ('dimension', 'entry_count'):
            try: known.append(self.obs(meth, self.pre))
            except (Anchor, Unsupported): pass
        more = state.extra(self.p, self.mty, self.pre, known)
        if not more: return
        m = self.W.run(self.ck, self.key('new'), []).ret
        for meth, n in (('set_entry', 1), ('set_entry', 2), ('zero_entry', 3)):
            a = ([self.val(f'e{n}')] if meth == 'set_entry' else []) + [self.idx(f'c{n}'), self.idx(f'r{n}')]
            m = self.W.run(self.ck, self.key(meth, TR), [mk('ref', 'P0'), *a], {'P0': m}).st['P0']
        self.ck.note(f'{self.ty} has fields no observer accounts for ({", ".join(more)}): checked after short histories only')
        if m.op != 'tup': raise Unsupported('state beyond the observers: ' + ', '.join(more))
        self.pre = m
    def key(self, m, trait=None, ref=False): return K(self.p, self.ty, m, trait, ref)
    def idx(self, n): return sym(n, 0, U64)
    def val(self, n):
        lo, hi, so = scalar_range(self.ety)
        return sym(n, lo, hi, so)
    def get(self, m, c, r): return self.obs('get_entry', m, c, r)
    def obs(self, meth, m, *args):
        R = self.W.run(self.ck, self.key(meth, TR), [rv(m), *args])
        if R.pc is FALSE: raise Unsupported(meth + ' never returns')
        return R.ret
    def mut(self, meth, *args, trait=None):
        R = self.W.run(self.ck, self.key(meth, trait), [mk('ref', 'P0'), *args], {'P0': self.pre})
        return R
    def inv(self, *at):
        """what every matrix satisfies at the named coordinates (established by C01 and C03)"""
        n, d = self.obs('entry_count', self.pre), self.obs('dimension', self.pre)
        r = le(n, I(MAXMAP))
        for c, q in at: r = band(r, bimp(self.mem(self.pre, c, q), band(le(I(1), n), lt(c, d), lt(q, d))))
        return r
    def returns(self, name, fn, R, at=(), unless=FALSE):
        self.ck.total(name, fn, R, self.inv(*at), unless)
    def table(self, m):
        fs = self.p.types[self.mty]['variants'][0]['fields']
        t = [i for i, f in enumerate(fs) if 'HashMap<u64' in f[1] or 'BTreeMap<u64' in f[1]]
        if len(t) > 1: t = [i for i in t if any(w in fs[i][1].split(',', 1)[1] for w in ('Hash', 'BTree'))]
        if len(t) != 1: raise Unsupported('entry table not recognised')
        return m.args[t[0]], fs[t[0]][1]
    def mem(self, m, c, r):
        """an entry is stored at (c, r)"""
        t, ty = self.table(m)
        import stdm
        vt = stdm.targs(ty)[1]
        return band(mhas(t, c), mhas(mval(t, c, vt), r))

def valid(c, r): return band(lt(c, I(U64)), lt(r, I(U64)))
def iszero(x, v): return feq(v, x.zero) if x.ety in ('f64', 'f32') else eq(v, I(0))
def bint(b): return ite(b, I(1), I(0))

def each(ck, W, kinds, name, meth, f, trait=None):
    """run obligation group f(Mx) for every matrix kind"""
    for kd in kinds:
        fn = ('CsrAdjacencyMatrix' if kd == 'adj' else f'CsrSquareMatrix<{kd}>') + '::' + meth
        ck.section(name, fn, lambda: f(Mx(ck, W, kd), fn))

ALL = ['adj'] + NUM
SQ = NUM

def o_set(ck, W, kinds, asp):
    def f(x, fn):
        e, c, r, qc, qr = x.val('e'), x.idx('c'), x.idx('r'), x.idx('qc'), x.idx('qr')
        R = x.mut('set_entry', e, c, r, trait=TR)
        x.returns('set_entry', fn, R, [(c, r)])
        post = R.st['P0']
        v = valid(c, r)
        here = band(eq(qc, c), eq(qr, r))
        if 'value' in asp:
            stored = ite(iszero(x, e), x.zero, I(1) if x.kind == 'adj' else e)
            want = ite(band(v, here), stored, x.get(x.pre, qc, qr))
            ck.eq('set_entry: the entry reads back what was set last and no other entry changes', fn, x.get(post, qc, qr), want, R.pc)
        if 'dim' in asp: dims(x, fn, R, post, c, r, v, 'set_entry')
        if 'count' in asp:
            counts(x, fn, R, post, c, r, qc, qr, 'set_entry')
            stored = bite(v, bnot(iszero(x, e)), x.mem(x.pre, c, r))
            ck.eq('set_entry: a nonzero value stores an entry, zero stores none', fn, G(x.mem(post, c, r)), G(stored), R.pc)
    each(ck, W, kinds, 'set_entry', 'set_entry', f)

def dims(x, fn, R, post, c, r, v, what):
    d0 = x.obs('dimension', x.pre); d1 = x.obs('dimension', post)
    x.ck.eq(f'{what}: dimension is the larger of the old dimension and both indices plus one; the index 2^64-1 changes nothing', fn, d1,
            ite(v, tmax(tmax(d0, add(c, I(1))), add(r, I(1))), d0), R.pc)

def counts(x, fn, R, post, c, r, qc, qr, what):
    ck = x.ck
    n0 = x.obs('entry_count', x.pre); n1 = x.obs('entry_count', post)
    ck.eq(f'{what}: the entry count changes exactly as the set of stored entries does', fn, sub(n1, n0), sub(bint(x.mem(post, c, r)), bint(x.mem(x.pre, c, r))), R.pc)
    other = bnot(band(eq(qc, c), eq(qr, r)))
    ck.eq(f'{what}: no other stored entry appears or disappears', fn, G(x.mem(post, qc, qr)), G(x.mem(x.pre, qc, qr)), band(R.pc, other))

def o_zero(ck, W, kinds, asp):
    def f(x, fn):
        c, r, qc, qr = x.idx('c'), x.idx('r'), x.idx('qc'), x.idx('qr')
        R = x.mut('zero_entry', c, r, trait=TR)
        x.returns('zero_entry', fn, R, [(c, r)])
        post = R.st['P0']
        here = band(eq(qc, c), eq(qr, r))
        if 'value' in asp:
            ck.eq('zero_entry: the entry reads zero and no other entry changes', fn, x.get(post, qc, qr), ite(here, x.zero, x.get(x.pre, qc, qr)), R.pc)
        if 'dim' in asp:
            ck.eq('zero_entry: dimension is unchanged', fn, x.obs('dimension', post), x.obs('dimension', x.pre), R.pc)
        if 'count' in asp:
            counts(x, fn, R, post, c, r, qc, qr, 'zero_entry')
            ck.eq('zero_entry: no entry remains stored', fn, G(x.mem(post, c, r)), G(FALSE), R.pc)
    each(ck, W, kinds, 'zero_entry', 'zero_entry', f)

def o_inc(ck, W, kinds, asp):
    def f(x, fn):
        c, r, qc, qr = x.idx('c'), x.idx('r'), x.idx('qc'), x.idx('qr')
        R = x.mut('increment_entry', c, r)
        # an integer entry at the top of its range cannot be incremented
        hi = scalar_range(x.ety)[1]
        x.returns('increment_entry', fn, R, [(c, r)], FALSE if hi is None else ge(x.get(x.pre, c, r), I(hi)))
        post = R.st['P0']
        v = valid(c, r)
        here = band(eq(qc, c), eq(qr, r))
        if 'value' in asp:
            old = x.get(x.pre, qc, qr)
            plus = fop('add', old, x.one) if x.ety == 'f64' else fop('tof32', fop('add', old, x.one)) if x.ety == 'f32' else add(old, I(1))
            # an entry that is not stored becomes one
            new = ite(x.mem(x.pre, c, r), plus, x.one)
            ck.eq('increment_entry: one is added to the entry and no other entry changes', fn, x.get(post, qc, qr), ite(band(v, here), new, old), R.pc)
        if 'dim' in asp: dims(x, fn, R, post, c, r, v, 'increment_entry')
        if 'count' in asp:
            counts(x, fn, R, post, c, r, qc, qr, 'increment_entry')
            ck.eq('increment_entry: the entry is stored', fn, G(x.mem(post, c, r)), G(bite(v, TRUE, x.mem(x.pre, c, r))), R.pc)
    each(ck, W, [k for k in kinds if k != 'adj'], 'increment_entry', 'increment_entry', f)

def o_mind(ck, W, kinds, asp):
    def f(x, fn):
        n, qc, qr = x.idx('n'), x.idx('qc'), x.idx('qr')
        R = x.mut('set_minimum_dimension', n)
        post = R.st['P0']
        if 'value' in asp: ck.eq('minimum dimension: entries unchanged', fn, x.get(post, qc, qr), x.get(x.pre, qc, qr), R.pc)
        if 'dim' in asp: ck.eq('minimum dimension: dimension is the larger of both', fn, x.obs('dimension', post), tmax(x.obs('dimension', x.pre), n), R.pc)
        if 'count' in asp:
            ck.eq('minimum dimension: count unchanged', fn, x.obs('entry_count', post), x.obs('entry_count', x.pre), R.pc)
            ck.eq('minimum dimension: stored entries unchanged', fn, G(x.mem(post, qc, qr)), G(x.mem(x.pre, qc, qr)), R.pc)
    each(ck, W, [k for k in kinds if k == 'f64'], 'set_minimum_dimension', 'set_minimum_dimension', f)

def o_mul(ck, W, asp):
    def f(x, fn):
        m, qc, qr = x.val('factor'), x.idx('qc'), x.idx('qr')
        R = x.mut('multiply_entries_by', m)
        post = R.st['P0']
        if 'value' in asp:
            old = x.get(x.pre, qc, qr)
            ck.eq('scaling: every stored entry is multiplied', fn, x.get(post, qc, qr), ite(x.mem(x.pre, qc, qr), fop('mul', old, m), x.zero), R.pc)
        if 'dim' in asp: ck.eq('scaling: dimension unchanged', fn, x.obs('dimension', post), x.obs('dimension', x.pre), R.pc)
        if 'count' in asp:
            ck.eq('scaling: count unchanged', fn, x.obs('entry_count', post), x.obs('entry_count', x.pre), R.pc)
            ck.eq('scaling: stored entries unchanged', fn, G(x.mem(post, qc, qr)), G(x.mem(x.pre, qc, qr)), R.pc)
    each(ck, W, ['f64'], 'multiply_entries_by', 'multiply_entries_by', f)

def o_new(ck, W, kinds, asp):
    def mkf(meth, trait):
        def f(x, fn):
            R = W.run(ck, x.key(meth, trait), [])
            ck.total(f'{meth}', fn, R)
            qc, qr = x.idx('qc'), x.idx('qr')
            m = R.ret
            if 'value' in asp: ck.eq(f'{meth}: a fresh matrix is all zero', fn, x.get(m, qc, qr), x.zero, R.pc)
            if 'dim' in asp: ck.eq(f'{meth}: a fresh matrix has dimension zero', fn, x.obs('dimension', m), I(0), R.pc)
            if 'count' in asp:
                ck.eq(f'{meth}: a fresh matrix has no entries', fn, x.obs('entry_count', m), I(0), R.pc)
                ck.eq(f'{meth}: a fresh matrix stores nothing', fn, G(x.mem(m, qc, qr)), G(FALSE), R.pc)
        return f
    each(ck, W, kinds, 'new', 'new', mkf('new', None))
    each(ck, W, kinds, 'default', 'default', mkf('default', 'Default'))

def o_clone(ck, W, kinds):
    def f(x, fn):
        qc, qr = x.idx('qc'), x.idx('qr')
        for m in ('clone', 'clone_from'):
            key = x.key('clone', 'Clone')
            if m == 'clone_from':
                # only where the type has its own
                key = key[:-len('clone')] + m
                if key not in x.p.bodies: continue
                R = W.run(ck, key, [mk('ref', 'P0'), rv(x.pre)], {'P0': W.typed('target', x.mty)})
                got = R.st['P0']
            else:
                R = W.run(ck, key, [rv(x.pre)])
                got = R.ret
            x.returns(m, fn, R, [(qc, qr)])
            ck.eq(m + ': same entries', fn, x.get(got, qc, qr), x.get(x.pre, qc, qr), R.pc)
            ck.eq(m + ': same dimension', fn, x.obs('dimension', got), x.obs('dimension', x.pre), R.pc)
            ck.eq(m + ': same entry count', fn, x.obs('entry_count', got), x.obs('entry_count', x.pre), R.pc)
            ck.eq(m + ': same stored entries', fn, G(x.mem(got, qc, qr)), G(x.mem(x.pre, qc, qr)), R.pc)
    each(ck, W, kinds, 'clone', 'clone', f)

def o_get(ck, W, kinds):
    """get_entry is determined by the stored entries"""
    def f(x, fn):
        c, r = x.idx('c'), x.idx('r')
        R = W.run(ck, x.key('get_entry', TR), [rv(x.pre), c, r])
        x.returns('get_entry', fn, R, [(c, r)])
        g = x.get(x.pre, c, r)
        if x.kind == 'adj':
            ck.eq('get_entry: one for a stored entry, zero otherwise', fn, g, bint(x.mem(x.pre, c, r)))
        else:
            t, ty = x.table(x.pre)
            import stdm
            vt = stdm.targs(ty)[1]
            ck.eq('get_entry: the stored value, zero otherwise', fn, g, ite(x.mem(x.pre, c, r), mval(mval(t, c, vt), r, x.ety), x.zero))
    each(ck, W, kinds, 'get_entry', 'get_entry', f)

# ------------------------------------------------------------------ text
def S_(s): return mk('str', s)

def text_of(n, cell):
    """rows of `[ c, c, c ]`, one character a cell, separated by CR LF"""
    r, c = fresh('r', 0, U64), fresh('c', 0, U64)
    last = lambda k: eq(k, sub(n, I(1)))
    row = comp(n, lam(c, cat(seqite(cell(c, r), S_('1'), S_('0')), seqite(last(c), S_(' '), S_(', ')))))
    return comp(n, lam(r, cat(S_('[ '), row, S_(']'), seqite(last(r), EMPTY, S_('\r\n')))))

def o_text(ck, W):
    def f(x, fn):
        from props.graph import okpart
        R = W.run(ck, x.key('try_to_string'), [rv(x.pre)])
        ck.total('text', fn, R)
        ok, v = okpart(x, R)
        n = x.obs('dimension', x.pre)
        if v is None: ck.viol('text: produced', fn, 'never succeeds'); return
        ck.eq('text: one row per target with one digit per source, all cells in order', fn, v, text_of(n, lambda c, r: x.mem(x.pre, c, r)), ok)
        g = ok
        for a in batoms(ok):
            if a.op == 'p' and a.args[0] == 'allocfail': g = cofactor(g, a, False)
        # three characters a cell and four more a row, no separator after the last row
        size = add(scale(mul(n, n), 3), scale(n, 4))
        ck.eq('text: produced whenever its size is representable and the buffer can be allocated', fn, G(g), G(TRUE), le(size, I(U64)))
        for e in R.ev.events:
            if e[0] == 'alloc_try': ck.eq('text: the reservation is the length of the text', fn, e[2][0], sub(size, I(2)), e[1])
            if e[0] == 'alloc_abort' and not (e[2][0].op == 'int' and e[2][0].args[0] <= 4096): ck.viol('text: the buffer is never allocated in a way that aborts', fn, f'infallible allocation of {show(e[2][0])[:200]} bytes')
        key = [k for k in x.p.bodies if re.match(r'^<.*CsrAdjacencyMatrix as std::fmt::Display>::fmt$', k)]
        if len(key) != 1: ck.viol('text: displaying a matrix', 'CsrAdjacencyMatrix', 'Display is not implemented'); return
        D = W.run(ck, key[0], [rv(x.pre), mk('ref', '@fmt')], {'@fmt': mk('fmtbuf', EMPTY)})
        dok, _ = okpart(x, D)
        out = D.st['@fmt']
        import stdm
        ck.eq('text: displaying a matrix writes exactly its text', key[0], stdm.fmtbuf(out), v, dok)
        ck.eq('text: displaying a matrix fails only when its text cannot be made', key[0], G(dok), G(ok))
    each(ck, W, ['adj'], 'text', 'try_to_string', f)
