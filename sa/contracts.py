"""Contracts of the matrix module, as used when analysing the layers above it.

Every contract is itself an obligation of the matrix-module properties, which are decided against
the matrix module's own source (see prop_matrix)."""
import re
from vals import *
from mat import *
import terms as tm

MATRE = re.compile(r"matrix::csr_(adjacency|square)_matrix::Csr(?:Adjacency|Square)Matrix(Iter)?(?:::)?(?:<([^>]*)>)?")

def mat_kind(ty):
    m = MATRE.search(ty)
    if not m: return None
    if m.group(1) == 'adjacency': return 'adj'
    k = (m.group(3) or '').split(',')[-1].strip()
    return k or None

def match(fn):
    k = fn.get('key') or ''
    if not isinstance(k, str) or 'matrix::csr_' not in k: return False
    if k.startswith('closure@'): return False
    h = k.split(' as ')[0]
    return bool(re.match(r"^<?&?(?:mut )?matrix::csr_(adjacency|square)_matrix::Csr(Adjacency|Square)Matrix", h))

def meth_of(fn):
    return fn['key'].rsplit('::', 1)[1]

class MatrixLayer:
    """handler: models a call into the matrix module by its contract"""
    matrix_layer = True
    def __init__(self): self.used = {}
    def __call__(self, c):
        m = meth_of(c.fn)
        kind = mat_kind(c.fn['key'])
        f = getattr(self, 'm_' + m, None)
        if kind is None or f is None: return NotImplemented
        self.used[c.fn['key']] = self.used.get(c.fn['key'], 0) + 1
        c.kind = kind
        c.meth = m
        return f(c)
    def M(self, c): return c.val(0)
    def put(self, c, v): c.store(c.args[0], v)
    def m_new(self, c): return mnewm(c.kind)
    def m_default(self, c): return mnewm(c.kind)
    def m_clone(self, c):
        c.ev.pc = c.pc
        c.ev.event('alloc_abort', mcount(self.M(c)), 'matrix')
        return self.M(c)
    def m_clone_from(self, c): c.store(c.args[0], c.val(1)); return UNIT
    def m_dimension(self, c): return mdim(self.M(c))
    def m_entry_count(self, c): return mcount(self.M(c))
    def m_get_entry(self, c): return mget(self.M(c), c.args[1], c.args[2], c.kind)
    def m_set_entry(self, c):
        self.put(c, mset(self.M(c), c.args[1], c.args[2], c.args[3], c.kind)); return UNIT
    def m_zero_entry(self, c):
        self.put(c, mzero(self.M(c), c.args[1], c.args[2])); return UNIT
    def m_increment_entry(self, c):
        self.put(c, minc(self.M(c), c.args[1], c.args[2], c.kind)); return UNIT
    def m_set_minimum_dimension(self, c):
        self.put(c, mmind(self.M(c), c.args[1])); return UNIT
    def m_multiply_entries_by(self, c):
        self.put(c, mmul(self.M(c), c.args[1])); return UNIT
    def m_get_sparse_col_vector(self, c): return app('colvec', self.M(c), c.args[1], sort='seq')
    def m_get_sparse_row_vector(self, c): return app('rowvec', self.M(c), c.args[1], sort='seq')
    def m_col_nonzero_entry_count(self, c): return seqlen(app('colvec', self.M(c), c.args[1], sort='seq'))
    def m_row_nonzero_entry_count(self, c): return seqlen(app('rowvec', self.M(c), c.args[1], sort='seq'))
    def m_try_to_string(self, c): return self.strres(c, app('mattext', self.M(c), sort='seq'))
    def m_to_string_with_precision(self, c): return self.strres(c, app('mattextp', self.M(c), c.args[1], sort='seq'))
    def strres(self, c, s):
        ok = pred('textok', s)
        return result(ok, s, app('err', s, sort='obj'))
    def m_into_iter(self, c):
        if self.M(c).op == 'iter': return self.M(c)
        return mk('iter', mk('src', mk('dmat', self.M(c), c.kind), I(0)))
    def m_next(self, c):
        import stdm
        c.meth = 'next'
        return stdm.next_on(c, c.args[0], c.argtys[0][5:] if c.argtys[0].startswith('&mut ') else c.argtys[0])

class PoolLayer:
    """average pooling by its contract (established against its own source, see props/compress.o_pool)"""
    def __init__(self, key): self.key = key
    def match(self, fn): return fn.get('key') == self.key
    def __call__(self, c):
        g = c.val(0)
        ms = [v for v in g.args if sort_of(v) == 'mat'] if g.op == 'tup' else []
        if len(ms) != 1: raise Unsupported('graph value')
        return pool(ms[0], c.args[1])

def pool(M, b):
    n = mdim(M)
    b2 = ite(lt(b, I(1)), I(1), ite(lt(n, b), n, b))
    P = app('pool', M, b2, sort='mat')
    # ceil(n / b') blocks a side: at most ceil(2^64 / b), and one when b exceeds n
    if b.op == 'int' and b.args[0] >= 1: DIMB[P] = (U64 + b.args[0] - 1) // b.args[0]
    return P
def pool_canon(M, b2): return app('pool', M, b2, sort='mat')
tm._builders['pool'] = pool_canon

def layer():
    h = MatrixLayer()
    return [(match, h)], h
