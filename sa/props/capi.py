"""Obligations on the C interface (graphrox-c), on top of the library's public operations.

Calls into the library are kept as uninterpreted operations of the library (their meaning is the
subject of the library's own properties); what is decided here is what the C layer does with the
handles, buffers and out-parameters."""
import re
from vals import *
from mat import *
import vals, terms as tm, stdm
import cmp as C, ground, arith
from stdm import isnull
from chk import Anchor, Res
from ev import Ev

CORE = {'Graph': 'Graph', 'CompressedGraph': 'CompressedGraph', 'CsrSquareMatrix': 'Matrix'}
MUT = {'add_vertex', 'add_edge', 'delete_edge'}
INTS = {'u8': (0, 255), 'u64': (0, U64), 'usize': (0, U64), 'u32': (0, (1 << 32) - 1), 'i8': (-128, 127), 'u16': (0, 65535), 'i32': (-1 << 31, (1 << 31) - 1), 'i64': (-1 << 63, (1 << 63) - 1)}
NOALLOC = 1 << 62

CORERE = re.compile(r"^<?&?(?:'\w+ )?(?:mut )?graphrox::(?:[a-z_]\w*::)*([A-Z]\w*)(?:::)?(?:<[^>]*>)?(?:::(\w+)| as (.*)>::(\w+))")

def core_fn(fn):
    """(type, operation) when fn is an operation of the library, else None"""
    if fn.get('body'): return None
    m = CORERE.match(str(fn.get('key') or fn.get('path') or ''))
    if m is None or m.group(1) not in CORE: return None
    return CORE[m.group(1)], m.group(2) or m.group(4)

def val(nm, args, ty):
    """the value a library operation returns, as an uninterpreted operation of its arguments"""
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == 'app' and x.args[0] == 'seqite':
            f = lambda y: val(nm, list(args[:i]) + [y] + list(args[i + 1:]), ty)
            g = x.args[1].args[0]; a, b = f(x.args[2]), f(x.args[3])
            return en_merge(g, a, b) if a.op == 'en' else ite(g, a, b)
    if ty == '()': return UNIT
    if ty == 'bool': return G(pred('core', nm, *args))
    if ty in INTS: return app('core', nm, *args, lo=INTS[ty][0], hi=INTS[ty][1])
    if ty in ('f64', 'f32'): return app('core', nm, *args, sort='float')
    h = stdm.head(ty); a = stdm.targs(ty)
    if h.endswith('::Result') or h.endswith('::Option'):
        okg = pred('coreok', nm, *args)
        v = val(nm + '.ok', args, a[0])
        return result(okg, v, app('core', nm + '.err', *args, sort='obj')) if h.endswith('Result') else opt(okg, v)
    if h.endswith('::Vec') or h.endswith('::String') or h.endswith('::Box'): return app('core', nm, *args, sort='seq')
    return app('core', nm, *args, sort='obj')

class CoreLayer:
    def __init__(self): self.used = set()
    def match(self, fn): return core_fn(fn) is not None
    def __call__(self, c):
        own, m = core_fn(c.fn)
        nm = f'{own}.{m}'
        self.used.add(nm)
        args = []
        for i, (a, t) in enumerate(zip(c.args, c.argtys)):
            if t.startswith('&mut '): args.append(c.load(a, t[5:]))
            else: args.append(deep(c, a, t))
        args = [seqnorm(x) for x in args]
        if nm == 'Graph.edge_count': return seqlen(app('core', 'Graph.entries', args[0], sort='seq'))
        if nm == 'Matrix.entry_count': return seqlen(app('core', 'Matrix.entries', args[0], sort='seq'))
        if nm == 'Graph.add_vertex' and len(args) == 3: args[2] = optseq(args[2])
        if m == 'into_iter':
            ety = '(u64, u64)' if own == 'Graph' else '(f64, u64, u64)'
            return mk('iter', mk('src', mk('dseq', app('core', own + '.entries', args[0], sort='seq'), 'v', ety), I(0)))
        if m in ('get_vertex_in_degree', 'get_vertex_out_degree'):
            return seqlen(app('core', own + '.' + m.replace('degree', 'edges'), *args, sort='seq'))
        if c.argtys and c.argtys[0].startswith('&mut '):
            f = lambda xs: app('core', nm, *xs, sort='obj')
            v = f(args)
            for i, x in enumerate(args):
                if isinstance(x, T) and x.op == 'app' and x.args[0] == 'seqite':
                    v = ite(x.args[1].args[0], f(args[:i] + [x.args[2]] + args[i + 1:]), f(args[:i] + [x.args[3]] + args[i + 1:]))
            c.store(c.args[0], v, c.argtys[0][5:])
            return val(nm + '.ret', args, c.ty)
        return val(nm, args, c.ty)

def seqnorm(x):
    if not isinstance(x, T): return x
    if x.op in ('arr', 'cat') and not x.args: return EMPTY
    if x.op == 'app' and x.args[0] == 'seqite': return seq_ite(x.args[1].args[0], seqnorm(x.args[2]), seqnorm(x.args[3]))
    return x

def optseq(o):
    """the list an optional list stands for (absent and empty are the same)"""
    if o.op != 'en': raise Unsupported('optional list argument')
    r = EMPTY
    for v, g, fs in en_alts(o):
        if fs: r = seq_ite(g, fs[0].args[0] if fs[0].op == 'rv' else fs[0], r)
    return r

def deep(c, a, t):
    """argument with references looked through"""
    if a.op == 'en':
        return mken([(v, g, tuple(deep(c, x, '?') for x in fs)) for v, g, fs in en_alts(a)])
    if a.op in ('rv', 'ref', 'sref', 'ite'): return c.look(a)
    if t.startswith('&'): return c.load(a, stdm.strip_ref(t))
    return a

# ---------------------------------------------------------------- the C functions
NEU = lambda: I(0)
H = {'G': ('GphrxGraph', 'graphrox::Graph'), 'C': ('GphrxCompressedGraph', 'graphrox::CompressedGraph'), 'M': ('GphrxCsrSquareMatrix', 'graphrox::matrix::CsrSquareMatrix<f64>')}

# name -> (parameters, kind of result, library operation)
#  parameters: handles g/c/m (g! is changed in place), numbers by type, out-parameters >n (usize) / >e (error byte), in-buffers <T
FN = {
    'gphrx_new_undirected': ('', 'G', 'Graph.new_undirected'),
    'gphrx_new_directed': ('', 'G', 'Graph.new_directed'),
    'gphrx_from_bytes': ('<u8 usize >e', 'G', 'Graph.try_from'),
    'gphrx_duplicate': ('G', 'G', 'Graph.clone'),
    'gphrx_matrix_string': ('G', 'str', 'Graph.matrix_string'),
    'gphrx_to_bytes': ('G >n', 'bytes', 'Graph.to_bytes'),
    'gphrx_is_undirected': ('G', 'bool', 'Graph.is_undirected'),
    'gphrx_vertex_count': ('G', 'u64', 'Graph.vertex_count'),
    'gphrx_edge_count': ('G', 'u64', 'Graph.edge_count'),
    'gphrx_does_edge_exist': ('G u64 u64', 'bool', 'Graph.does_edge_exist'),
    'gphrx_find_avg_pool_matrix': ('G u64', 'M', 'Graph.find_avg_pool_matrix'),
    'gphrx_approximate': ('G u64 f64', 'G', 'Graph.approximate'),
    'gphrx_compress': ('G u8', 'C', 'Graph.compress'),
    'gphrx_get_edge_list': ('G >n', 'edges', 'Graph.entries'),
    'gphrx_add_vertex': ('G! u64 <u64 usize', '', 'Graph.add_vertex'),
    'gphrx_add_edge': ('G! u64 u64', '', 'Graph.add_edge'),
    'gphrx_delete_edge': ('G! u64 u64', '', 'Graph.delete_edge'),
    'gphrx_get_vertex_in_edges_list': ('G u64 >n', 'verts', 'Graph.get_vertex_in_edges'),
    'gphrx_get_vertex_out_edges_list': ('G u64 >n', 'verts', 'Graph.get_vertex_out_edges'),
    'gphrx_get_vertex_in_degree': ('G u64', 'u64', 'Graph.get_vertex_in_degree'),
    'gphrx_get_vertex_out_degree': ('G u64', 'u64', 'Graph.get_vertex_out_degree'),
    'gphrx_compressed_graph_duplicate': ('C', 'C', 'CompressedGraph.clone'),
    'gphrx_compressed_graph_compression_level': ('C', 'u8', 'CompressedGraph.compression_level'),
    'gphrx_compressed_graph_is_undirected': ('C', 'bool', 'CompressedGraph.is_undirected'),
    'gphrx_compressed_graph_vertex_count': ('C', 'u64', 'CompressedGraph.vertex_count'),
    'gphrx_compressed_graph_edge_count': ('C', 'u64', 'CompressedGraph.edge_count'),
    'gphrx_compressed_graph_does_edge_exist': ('C u64 u64', 'bool', 'CompressedGraph.does_edge_exist'),
    'gphrx_get_compressed_matrix_entry': ('C u64 u64', 'u64', 'CompressedGraph.get_compressed_matrix_entry'),
    'gphrx_compressed_graph_matrix_string': ('C', 'str', 'CompressedGraph.matrix_string'),
    'gphrx_compressed_graph_to_bytes': ('C >n', 'bytes', 'CompressedGraph.to_bytes'),
    'gphrx_compressed_graph_from_bytes': ('<u8 usize >e', 'C', 'CompressedGraph.try_from'),
    'gphrx_decompress': ('C', 'G', 'CompressedGraph.decompress'),
    'gphrx_matrix_duplicate': ('M', 'M', 'Matrix.clone'),
    'gphrx_matrix_dimension': ('M', 'u64', 'Matrix.dimension'),
    'gphrx_matrix_entry_count': ('M', 'u64', 'Matrix.entry_count'),
    'gphrx_matrix_get_entry': ('M u64 u64', 'f64', 'Matrix.get_entry'),
    'gphrx_matrix_to_string': ('M', 'str', 'Matrix.to_string_with_precision 2'),
    'gphrx_matrix_to_string_with_precision': ('M usize', 'str', 'Matrix.to_string_with_precision'),
    'gphrx_matrix_get_entry_list': ('M >n', 'entries', 'Matrix.entries'),
}
FREE = {
    'free_gphrx_string_buffer': ('ptr', 'CString'),
    'free_gphrx_bytes_buffer': ('ptr len', '[u8]'),
    'free_gphrx_graph': ('G', H['G'][1]),
    'free_gphrx_edge_list': ('ptr len', '[GphrxGraphEdge]'),
    'free_gphrx_vertex_list': ('ptr len', '[GphrxGraphVertex]'),
    'free_gphrx_compressed_graph': ('C', H['C'][1]),
    'free_gphrx_matrix': ('M', H['M'][1]),
    'free_gphrx_matrix_entry_list': ('ptr len', '[GphrxMatrixEntry]'),
}
LISTTY = {'edges': '[GphrxGraphEdge]', 'verts': '[GphrxGraphVertex]', 'entries': '[GphrxMatrixEntry]', 'bytes': '[u8]'}

def ptr(n): return sym(n, sort='obj')

class Fx:
    """one C function evaluated on unknown arguments"""
    def __init__(self, ck, W, name):
        self.ck, self.W, self.name = ck, W, name
        self.p = W.capi
        self.layer = CoreLayer()
        self.con = [(self.layer.match, self.layer)]
    def body(self):
        return self.W.body(self.p, self.name)
    def run(self, args, st=None):
        return self.W.run(self.ck, self.name, args, st, self.con, prog=self.p)

def setup(spec):
    """arguments, handle pointer (or None), out pointer, in-buffer (pointer, length)"""
    args = []; h = hk = out = buf = None; nums = []
    mut = False
    for i, w in enumerate(spec.split()):
        if w.rstrip('!') in H:
            h = ptr('handle'); hk = w[0]; mut = w.endswith('!')
            args.append(tup(h))
        elif w[0] == '>': out = (ptr('out'), w[1]); args.append(out[0])
        elif w[0] == '<': buf = [ptr('buffer'), w[1:], None]; args.append(buf[0])
        elif w == 'f64': v = sym(f'x{i}', sort='float'); args.append(v); nums.append(v)
        else:
            v = sym(f'n{i}', *INTS[w]); args.append(v)
            if buf is not None and buf[2] is None: buf[2] = v
            else: nums.append(v)
    return args, h, hk, mut, out, buf, nums

def handle_value(x, h, hk):
    """the library object behind a handle"""
    return x.W.typed('deref', H[hk][1], x.con, prog=x.p) if False else None

class Run:
    """evaluation of one function and its specification"""
    def __init__(self, ck, W, name):
        self.x = x = Fx(ck, W, name)
        spec, self.res, op = FN[name]
        args, h, hk, mut, out, buf, nums = setup(spec)
        self.h, self.hk, self.mut, self.out, self.buf, self.nums = h, hk, mut, out, buf, nums
        st = {}
        self.obj = obj = app('object', h, OBJ[hk], sort='obj') if h is not None else None
        if h is not None: st[f'D:{h.id}'] = obj
        self.unset = None
        if out is not None: self.unset = st[f'D:{out[0].id}'] = sym('unset', 0, 255 if out[1] == 'e' else U64)
        self.R = x.run(args, st)
        fixed = []
        if ' ' in op:
            op, k = op.split(); fixed = [I(int(k))]
        self.op = op
        null = isnull(h) if h is not None else FALSE
        if buf is not None:
            empty = eq(buf[2], I(0))
            self.empty, self.raw = empty, app('rawslice', buf[0], buf[2], '[' + buf[1] + ']', sort='seq')
            null = bor_(null, band(isnull(buf[0]), bnot(empty)))
        self.null = null
        self.args = ([obj] if obj is not None else []) + nums + fixed
        self.spec()
    def spec(self):
        """want: result; out_want: value of the out-parameter; obj_want: library object afterwards"""
        res, op, null, a = self.res, self.op, self.null, self.args
        nul = app('nullptr', sort='obj')
        handle = lambda v, k: tup(app('boxptr', v, H[k][1], sort='obj'))
        self.out_want = self.obj_want = None
        live = bnot(null)
        if op.endswith('.try_from'):
            live = band(live, bite(self.empty, pred('coreok', op, EMPTY), pred('coreok', op, self.raw)))
            v = ite(self.empty, app('core', op + '.ok', EMPTY, sort='obj'), app('core', op + '.ok', self.raw, sort='obj'))
            self.want, self.out_want = ite(live, handle(v, res), tup(nul)), ite(live, I(0), I(1))
        elif res in H:
            self.want = ite(live, handle(app('core', op, *a, sort='obj'), res), tup(nul))
        elif res == 'bool': self.want = ite(live, ite(pred('core', op, *a), I(1), I(0)), I(0))
        elif res in ('u64', 'u8'):
            m = op.split('.')[1]
            if m.endswith('_degree'): v = seqlen(app('core', op.replace('degree', 'edges'), *a, sort='seq'))
            elif op in ('Graph.edge_count', 'Matrix.entry_count'): v = seqlen(app('core', op.split('.')[0] + '.entries', *a, sort='seq'))
            else: v = app('core', op, *a, lo=0, hi=U64 if res == 'u64' else 255)
            self.want = ite(live, v, I(0))
        elif res == 'f64': self.want = ite(live, app('core', op, *a, sort='float'), fconst(0.0))
        elif res == 'str':
            s = app('core', op + '.ok', *a, sort='seq')
            live = band(live, band(pred('coreok', op, *a), pred('nonul', s)))
            self.want = ite(live, app('cstrptr', app('cstring', s, sort='obj'), sort='obj'), nul)
        elif res in LISTTY:
            s = app('core', op + ('.ok' if res == 'bytes' else ''), *a, sort='seq')
            if res == 'bytes': lst = s; live = band(live, pred('coreok', op, *a))
            else:
                k = fresh('k', 0, MAXLEN)
                if res == 'verts': e = tup(at(s, k, 'u64'))
                else:
                    tys = ['u64', 'u64'] if res == 'edges' else ['f64', 'u64', 'u64']
                    t = at(s, k, '(' + ', '.join(tys) + ')')
                    e = tup(*[self.R.ev.fld(t, i, ty) for i, ty in enumerate(tys)])
                lst = comp(seqlen(s), lam(k, elt(e)))
            self.want = ite(live, app('boxptr', lst, LISTTY[res], sort='obj'), nul)
            self.out_want = ite(live, seqlen(s), I(0))
        elif self.mut:
            f = lambda extra: app('core', op, self.obj, *(self.nums + extra), sort='obj')
            self.want = UNIT
            # an invalid edge list leaves the graph as it was
            self.obj_want = [ite(self.empty, f([EMPTY]), f([self.raw])) if self.buf is not None else f([])]
        else: raise Unsupported('result kind')
        self.live = live
        if self.obj is not None and self.obj_want is None: self.obj_want = [self.obj]
    def cell(self, p):
        return self.R.st.get(f'D:{p.id}')

OBJ = {'G': 'Graph', 'C': 'CompressedGraph', 'M': 'Matrix'}


# ---------------------------------------------------------------- models for difference witnesses
import zlib
def key(v):
    if isinstance(v, ground.Mat): return ('M', v.dim, tuple(sorted(v.d.items())))
    if isinstance(v, (tuple, list)): return tuple(key(x) for x in v)
    return v

class CModel(ground.Model):
    """unknown pointers, buffers and library objects; the elementary library operations mean what they
    do, the others are arbitrary functions of their arguments"""
    def h(self, *xs): return zlib.crc32(repr((self.seedv(), key(xs))).encode())
    def leaf(self, t):
        if t.op == 'sym' and sort_of(t) == 'obj':
            return ('null',) if self.rng.random() < .3 else ('address', t.args[0])
        return ground.Model.leaf(self, t)
    def A1(self, a, env):
        if a.op == 'p':
            n = a.args[0]; A = a.args
            if n == 'isnull':
                v = self.T(A[1], env)
                return v == ('null',)
            if n == 'nonul': return self.h('nonul', self.T(A[1], env)) % 4 != 0
            if n == 'coreok': return self.h('ok', A[1], [self.T(x, env) for x in A[2:]]) % 4 != 0
            if n == 'core': return bool(self.core(A[1], [self.T(x, env) for x in A[2:]], 'bool', None))
        if a.op == 'oeq':
            x, y = self.T(a.args[0], env), self.T(a.args[1], env)
            return key(x) == key(y)
        return ground.Model.A1(self, a, env)
    def graph(self):
        und = self.rng.random() < .5
        M = None
        while M is None or M.dim > 64: M = self.mat(tm.sym('gm', sort='mat'))
        d = {c: 1 for c in M.d}
        if und: d.update({(r, c): 1 for c, r in M.d})
        return ('G', und, ground.Mat(M.dim, d))
    def core(self, nm, a, sort, t):
        own, _, m = nm.partition('.')
        o = a[0] if a else None
        if nm in ('Graph.new_undirected', 'Graph.new_directed'): return ('G', m == 'new_undirected', ground.Mat(0, {}))
        if nm == 'Matrix.default': return ground.Mat(0, {})
        if m == 'clone': return o
        if isinstance(o, tuple) and o and o[0] == 'G':
            M = o[2]
            if m == 'is_undirected': return o[1]
            if m == 'vertex_count': return M.dim
            if m == 'does_edge_exist': return (a[1], a[2]) in M.d
            if m == 'entries': return [('tup', c, r) for c, r in sorted(M.d)]
            if m == 'get_vertex_out_edges': return [r for c, r in sorted(M.d) if c == a[1]]
            if m == 'get_vertex_in_edges': return [c for c, r in sorted(M.d) if r == a[1]]
            if m in ('add_edge', 'delete_edge', 'add_vertex'):
                es = [(a[1], a[2])] if m != 'add_vertex' else [(a[1], x) for x in a[2]]
                d = dict(M.d); dim = M.dim
                if m == 'add_vertex': dim = max(dim, a[1] + 1)
                for c, r in es:
                    for e in [(c, r)] + ([(r, c)] if o[1] else []):
                        if m == 'delete_edge': d.pop(e, None)
                        else: d[e] = 1; dim = max(dim, c + 1, r + 1)
                return ('G', o[1], ground.Mat(dim, d))
        if isinstance(o, ground.Mat) and own == 'Matrix':
            if m == 'dimension': return o.dim
            if m == 'get_entry': return float(o.d.get((a[1], a[2]), 0))
            if m == 'entries': return [('tup', float(v), c, r) for (c, r), v in sorted(o.d.items())]
        h = self.h(nm, a)
        if sort == 'bool': return h & 1
        if sort == 'int':
            lo, hi = ground.interval(t)
            return h % min(1000, (hi or U64) + 1)
        if sort == 'float': return (h % 97) / 8
        if sort == 'seq': return [(h >> i) % 120 + 1 for i in range(h % 5)]
        if sort == 'obj': return ('result of', nm, key(a))
        raise ground.Skip('core')
    def app(self, t, env, ev):
        A = t.args; n = A[0]
        if n == 'core': return self.core(A[1], [ev(x) for x in A[2:]], sort_of(t), t)
        if n == 'object':
            if A[2] == 'Graph': return self.graph()
            if A[2] == 'Matrix':
                M = None
                while M is None or M.dim > 64: M = self.mat(tm.sym('gm', sort='mat'))
                return ground.Mat(M.dim, {k: (v % 1000) / 8 + .5 for k, v in M.d.items()})
            return ('some', A[2])
        if n == 'nullptr': return ('null',)
        if n == 'boxptr': return ('owned', A[2], ev(A[1]))
        if n in ('cstring', 'cstrptr', 'owned', 'ownedcs'): return (n, ev(A[1]))
        if n == 'ptrof': return ('pointer into', key(ev(A[1])))
        if n == 'fatptr': return ('fat', ev(A[1]), ev(A[2]))
        if n == 'ptroff': return ('offset', ev(A[1]), ev(A[2]))
        if n == 'rawslice':
            k = num(ev(A[2]))
            if k > 40: raise ground.Skip('count')
            return [self.rng.randrange(0, 12) for _ in range(k)]
        if n[:1] == '.' and n[1:].isdigit():
            v = ev(A[1])
            if isinstance(v, tuple) and v[:1] == ('tup',): return v[1 + int(n[1:])]
            raise ground.Skip('field')
        return ground.Model.app(self, t, env, ev)
from ground import num

def differs(ck, a, b, ctx):
    try:
        from chk import Limit, TimeUp
        with Limit(30): return ground.witness(a, b, ctx, seed=ck.seed, samples=3000 * ck.deep, model=CModel)
    except (Unsupported, RecursionError, TimeUp): return None

def same(ck, name, fn, got, want, ctx, what):
    """equal for every argument; a difference is reported only with a model exhibiting it"""
    r = C.Cmp().cmp(got, want, ctx)
    if r[0] == 'eq': ck.ok(name, fn, what); return
    d = differs(ck, got, want, ctx)
    if d: ck.viol(name, fn, f'{what}: {d}')
    else: ck.unk(name, fn, f'{what}: {r[1]}')

def implied(ck, name, fn, f, ctx, what):
    x = band(ctx, bnot(f))
    if x is FALSE or arith.sat(x, steps=arith.Steps(30000)) is None: ck.ok(name, fn, what); return
    d = differs(ck, G(f), G(TRUE), ctx)
    if d: ck.viol(name, fn, f'{what}: {d}')
    else: ck.unk(name, fn, what)

# ---------------------------------------------------------------- obligations
_runs = {}
def each(ck, W, body, names=None):
    for nm in (names or FN):
        def th(nm=nm):
            if nm not in W.capi.bodies: raise Anchor(f'C function {nm}')
            r = _runs.get((id(W), nm))
            if r is None: r = _runs[(id(W), nm)] = Run(ck, W, nm)
            ck.fns.setdefault(nm, 1)
            body(r, nm)
        ck.section(nm, nm, th)

def objcmp(ck, r, nm, ctx, k):
    got = r.cell(r.h)
    want = r.obj_want[0] if k == 'live' else r.obj
    same(ck, f'{nm}: object', nm, got, want, ctx, 'the library object behind the handle afterwards')

def o_null(ck, W):
    """neutral results on null handles and buffers; no null pointer is accessed"""
    def one(r, nm):
        R = r.R
        for k, pc, pl, span, fn in R.ev.events:
            if k == 'deref' or k == 'slice_of':
                implied(ck, f'{nm}: {k} {span}', f'{nm} {span}', bnot(isnull(pl[0])), pc, 'memory is accessed only through a pointer known not to be null')
        if r.null is FALSE: return
        ctx = band(R.pc, r.null)
        same(ck, f'{nm}: neutral result', nm, R.ret, r.want, ctx, 'result for a null handle or buffer')
        if r.h is not None and r.buf is not None and r.mut: objcmp(ck, r, nm, ctx, 'null')
    each(ck, W, one)

def o_out(ck, W):
    """out-parameters"""
    def one(r, nm):
        if r.out is None: return
        got = r.cell(r.out[0])
        what = 'the length out-parameter' if r.out[1] == 'n' else 'the error out-parameter'
        same(ck, f'{nm}: out-parameter', nm, got, ite(isnull(r.out[0]), r.unset, r.out_want), r.R.pc, what)
    each(ck, W, one, [f for f in FN if '>' in FN[f][0]])

def o_forward(ck, W):
    """each function passes its arguments to, and its result from, the library operation it is named after"""
    def one(r, nm):
        ctx = band(r.R.pc, bnot(r.null))
        same(ck, f'{nm}: result', nm, r.R.ret, r.want, ctx, f'result of {r.op}')
        if r.h is not None: objcmp(ck, r, nm, ctx, 'live')
    each(ck, W, one)

def o_forward_lists(ck, W):
    """the returned buffers themselves: the reported length is theirs"""
    def one(r, nm):
        same(ck, f'{nm}: buffer', nm, r.R.ret, r.want, r.R.pc, 'the returned buffer')
    each(ck, W, one, [f for f in FN if '>' in FN[f][0]])

def ptrs(t):
    return t.args[0] if t.op == 'tup' and len(t.args) == 1 else t

def kinds(t, ctx):
    """(guard, pointer) leaves of a pointer value"""
    if t.op == 'tup' and len(t.args) == 1: yield from kinds(t.args[0], ctx); return
    if t.op == 'ite':
        g = band(ctx, t.args[0])
        if g is not FALSE: yield from kinds(t.args[1], g)
        g = band(ctx, bnot(t.args[0]))
        if g is not FALSE: yield from kinds(t.args[2], g)
        return
    yield ctx, t

def feasible(g): return arith.sat(g, steps=arith.Steps(30000)) is not None

def o_own(ck, W):
    """ownership: handed-out memory is fresh and of the kind its release function takes; nothing is leaked or
    released except by the release functions, which release exactly the memory given"""
    def one(r, nm):
        R = r.R
        evs = R.ev.events
        unusual = [e for e in evs if e[0] in ('forget', 'manual')]
        outs = [e for e in evs if e[0] == 'into_raw']
        for e in evs:
            if e[0] == 'from_raw' and feasible(e[1]):
                p = e[2][1]
                back = unusual or any(x[2][2] is p for x in outs)
                (ck.unk if back else ck.viol)(f'{nm}: takes ownership', f'{nm} {e[3]}', f'takes ownership of memory it must leave to its owner ({show(p)[:60]} as {e[2][0]})')
        for i, e in enumerate(outs):
            ty, x, p = e[2]
            same_ = band(e[1], bnot(eqptr(R.ret, p)))
            if same_ is FALSE or not feasible(same_): ck.ok(f'{nm}: handed out {i}', f'{nm} {e[3]}', 'memory released from Rust ownership is what the function returns')
            elif r.x.layer.used and not unusual and not any(e2[0] == 'from_raw' for e2 in evs):
                d = differs(ck, G(eqptr(R.ret, p)), G(TRUE), e[1])
                (ck.viol if d else ck.unk)(f'{nm}: leak {i}', f'{nm} {e[3]}', f'memory of type {ty} is released from Rust ownership and not returned: {d}')
            else: ck.unk(f'{nm}: handed out {i}', f'{nm} {e[3]}', 'unusual ownership transfer')
        if r.res in H or r.res == 'str' or r.res in LISTTY:
            wt = H[r.res][1] if r.res in H else 'CString' if r.res == 'str' else LISTTY[r.res]
            n = 0
            for g, p in kinds(R.ret, R.pc):
                if p.op == 'app' and p.args[0] == 'nullptr' or not feasible(g): continue
                n += 1
                k = 'CString' if p.op == 'app' and p.args[0] == 'cstrptr' else p.args[2] if p.op == 'app' and p.args[0] == 'boxptr' else None
                if k == wt: ck.ok(f'{nm}: returned memory', nm, f'{n}: a fresh allocation of type {wt}')
                elif k is not None: ck.viol(f'{nm}: returned memory', nm, f'an allocation of type {k}, but the release function takes {wt}')
                elif p is r.h or r.buf is not None and p is r.buf[0]: ck.viol(f'{nm}: returned memory', nm, f'returns the pointer it was given ({show(p)}): it would be released twice')
                elif p.op == 'rv' and p.args[0] is r.obj and r.obj is not None: ck.viol(f'{nm}: returned memory', nm, 'returns the object it was given: it would be released twice')
                elif p.op == 'ref' and r.h is not None and p.args[0] == f'D:{r.h.id}': ck.viol(f'{nm}: returned memory', nm, 'returns the object it was given: it would be released twice')
                elif (p.op == 'app' and p.args[0] == 'ptrof' or p.op in ('ref', 'rv')) and feasible(band(g, bnot(bor_(FALSE, FALSE, *[e[1] for e in unusual])))): ck.viol(f'{nm}: returned memory', nm, 'returns a pointer into memory it releases')
                else: ck.unk(f'{nm}: returned memory', nm, f'origin of {show(p)[:100]}')
            if n == 0: ck.unk(f'{nm}: returned memory', nm, 'no allocation found')
    each(ck, W, one)
    for nm in FN:
        ck.section(nm, nm, lambda nm=nm: takes(ck, W, nm))
    for nm in FREE:
        ck.section(nm, nm, lambda nm=nm: free1(ck, W, nm))

TAKES = re.compile(r'(?:Box|CString|Vec|String|Rc|Arc)(?:::<.*>)?::from_raw(?:_parts)?\b|ptr::(?:\w+::)*drop_in_place|\bdealloc\b')
GIVES = re.compile(r'into_raw|::forget|::leak|ManuallyDrop')
def takes(ck, W, nm):
    """call-graph rule: no function but the release functions reaches an operation taking ownership of raw memory"""
    seen, todo, hit, give = set(), [nm], None, False
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        b = W.capi.bodies.get(k)
        if b is None: continue
        for f in calls(b):
            if f.get('body'): todo.append(f['key'])
            t = str(f.get('path') or '') + ' ' + str(f.get('key') or '')
            if TAKES.search(t): hit = (k, t.split(' ')[0])
            elif GIVES.search(t): give = give or 'forget' in t or 'ManuallyDrop' in t or 'leak' in t
    if hit is None: ck.ok(f'{nm}: no release', nm, f'{len(seen)} functions reached, none takes ownership of raw memory'); return
    if give: ck.unk(f'{nm}: no release', nm, f'{hit[0]} calls {hit[1]}'); return
    n = sum(1 for k in seen if k in W.capi.bodies for f in calls(W.capi.bodies[k]) if GIVES.search(str(f.get('path') or '') + str(f.get('key') or '')))
    m = 1 if FN[nm][1] else 0
    (ck.unk if n > m else ck.viol)(f'{nm}: no release', nm, f'{hit[0]} calls {hit[1]}: memory is released that belongs to the caller')

def calls(b):
    """functions called, or passed as callables, by a body (cleanup paths excluded)"""
    for bl in b['blocks']:
        t = bl['t']
        if bl.get('cleanup') or t[0] != 'call': continue
        f = t[1].get('fn') if isinstance(t[1], dict) else None
        if f:
            yield f
            for c in f.get('callables') or []:
                if isinstance(c, dict): yield c
                elif isinstance(c, str): yield {'key': c, 'body': True}

def eqptr(ret, p):
    """the returned pointer is p"""
    r = FALSE
    for g, q in kinds(ret, TRUE):
        if q is p: r = bor_(r, g)
    return r

def free1(ck, W, nm):
    if nm not in W.capi.bodies: raise Anchor(f'C function {nm}')
    x = Fx(ck, W, nm)
    spec, ty = FREE[nm]
    p = ptr('p'); n = None
    if spec.startswith('ptr'):
        args = [p]
        if 'len' in spec: n = sym('n', 0, U64); args.append(n)
    else: args = [tup(p)]
    R = x.run(args, {})
    live = bnot(isnull(p))
    evs = R.ev.events
    if any(e[0] in ('forget', 'manual', 'into_raw') for e in evs): raise Unsupported('unusual ownership transfer')
    takes = [e for e in evs if e[0] == 'from_raw']
    if not takes:
        if feasible(band(R.pc, live)): ck.viol(f'{nm}: releases', nm, 'never releases the memory it is given')
        return
    cover = FALSE
    for e in takes:
        t, q = e[2]
        good = q is p if n is None else q.op == 'app' and q.args[0] == 'fatptr' and q.args[1] is p and eq(q.args[2], n) is TRUE
        if t != ty: ck.viol(f'{nm}: type', f'{nm} {e[3]}', f'releases memory as {t}; it was allocated as {ty}')
        elif not good:
            if n is not None and q.op == 'app' and q.args[0] == 'fatptr' and q.args[1] is p: ck.viol(f'{nm}: length', f'{nm} {e[3]}', f'releases {show(q.args[2])[:60]} elements instead of the given number')
            else: ck.unk(f'{nm}: memory', f'{nm} {e[3]}', f'releases {show(q)[:80]}')
        else: ck.ok(f'{nm}: memory', f'{nm} {e[3]}', f'releases exactly the given memory as {ty}')
        bad = band(e[1], isnull(p))
        if feasible(bad): ck.viol(f'{nm}: null', f'{nm} {e[3]}', 'releases a null pointer')
        if feasible(band(e[1], cover)): ck.viol(f'{nm}: twice', f'{nm} {e[3]}', 'releases the memory twice')
        cover = bor_(cover, e[1])
    miss = band(band(R.pc, live), bnot(cover))
    if feasible(miss): (ck.viol if n is None or all(C.plain(a) or a.op == 'p' for a in batoms(miss)) else ck.unk)(f'{nm}: always', nm, 'the memory is not released ' + (arith.show_lits(arith.sat(miss)) or '')[:200])
    else: ck.ok(f'{nm}: always', nm, 'every non-null pointer is released')
    for e in evs:
        if e[0] in ('deref', 'slice_of'): implied(ck, f'{nm}: access', f'{nm} {e[3]}', bnot(isnull(e[2][0])), e[1], 'memory is accessed only through a pointer known not to be null')

def o_panic(ck, W):
    """no unwinding out of a C function"""
    def chk1(R, nm):
        for o in R.ev.obs:
            implied(ck, f'{nm}: {o.kind}', f'{nm} {o.span}', o.ok, o.pc, f'no panic ({o.kind})')
        implied(ck, f'{nm}: returns', nm, R.pc, TRUE, 'returns for every argument')
    each(ck, W, lambda r, nm: chk1(r.R, nm))
    for nm in FREE:
        def th(nm=nm):
            if nm not in W.capi.bodies: raise Anchor(f'C function {nm}')
            x = Fx(ck, W, nm); spec, ty = FREE[nm]
            a = [ptr('p')] if spec.startswith('ptr') else [tup(ptr('p'))]
            if 'len' in spec: a.append(sym('n', 0, U64))
            chk1(x.run(a, {}), nm)
        ck.section(nm, nm, th)
