"""The Python package: declarations, forwarding, ownership, lists and errors.

The package source is abstractly interpreted (sa/pyint.py); native calls are uninterpreted."""
import ast, glob, itertools, os
import extract
from chk import Anchor
from vals import Unsupported
import pyint as Y
from pyint import Lin, lin, atom, add, scale, Sym, ObjV, EqC, Cond, ClassV, CT, PtrT, SIMPLE, U64
from props import abi, capi

Y.BOOLRET = {n for n, v in capi.FN.items() if v[1] == 'bool'}
REL = 'graphrox-py/graphrox/__init__.py'
_cache = {}

def tree():
    p = os.path.join(extract.REPO, REL)
    if not os.path.exists(p): raise Anchor(REL)
    src = open(p).read()
    if src not in _cache:
        try: t = ast.parse(src)
        except SyntaxError as e: raise Anchor(f'{REL} does not parse: {e}')
        inline_modules(t, os.path.dirname(p))
        _cache[src] = t
    return _cache[src]

def inline_modules(t, d):
    """from ._x import ...: the module's statements in place (package-internal modules share the analysed namespace)"""
    out = []
    for s in t.body:
        if isinstance(s, ast.ImportFrom) and s.level == 1 and s.module and '.' not in s.module:
            p = os.path.join(d, s.module + '.py')
            if os.path.exists(p) and all(a.asname is None for a in s.names):
                u = ast.parse(open(p).read())
                inline_modules(u, d)
                out += u.body; continue
        out.append(s)
    t.body = out

# ------------------------------------------------------------------ the public interface
H, N = 'h', 'n'
KIND = {'Graph': 'G', 'CompressedGraph': 'C', 'CsrSquareMatrix': 'M'}
# class: {method: (parameters, native function, its arguments, result)}
SPEC = {
    'Graph': {
        '__bytes__': ([], 'gphrx_to_bytes', 'h >n', 'bytes'),
        'duplicate': ([], 'gphrx_duplicate', 'h', 'Graph'),
        'matrix_string': ([], 'gphrx_matrix_string', 'h', 'str'),
        'is_undirected': ([], 'gphrx_is_undirected', 'h', 'bool'),
        'vertex_count': ([], 'gphrx_vertex_count', 'h', 'int'),
        'edge_count': ([], 'gphrx_edge_count', 'h', 'int'),
        'does_edge_exist': (['from_vertex_id', 'to_vertex_id'], 'gphrx_does_edge_exist', 'h 0 1', 'bool'),
        'add_edge': (['from_vertex_id', 'to_vertex_id'], 'gphrx_add_edge', 'h 0 1', 'none'),
        'delete_edge': (['from_vertex_id', 'to_vertex_id'], 'gphrx_delete_edge', 'h 0 1', 'none'),
        'find_avg_pool_matrix': (['block_dimension'], 'gphrx_find_avg_pool_matrix', 'h 0', 'CsrSquareMatrix'),
        'approximate': (['block_dimension', 'threshold:f'], 'gphrx_approximate', 'h 0 1', 'Graph'),
        'vertex_in_degree': (['vertex_id'], 'gphrx_get_vertex_in_degree', 'h 0', 'int'),
        'vertex_out_degree': (['vertex_id'], 'gphrx_get_vertex_out_degree', 'h 0', 'int'),
        'edge_list': ([], 'gphrx_get_edge_list', 'h >n', 'list'),
        'vertex_in_edges': (['vertex_id'], 'gphrx_get_vertex_in_edges_list', 'h 0 >n', 'list'),
        'vertex_out_edges': (['vertex_id'], 'gphrx_get_vertex_out_edges_list', 'h 0 >n', 'list'),
    },
    'CompressedGraph': {
        '__bytes__': ([], 'gphrx_compressed_graph_to_bytes', 'h >n', 'bytes'),
        'duplicate': ([], 'gphrx_compressed_graph_duplicate', 'h', 'CompressedGraph'),
        'matrix_string': ([], 'gphrx_compressed_graph_matrix_string', 'h', 'str'),
        'decompress': ([], 'gphrx_decompress', 'h', 'Graph'),
        'compression_level': ([], 'gphrx_compressed_graph_compression_level', 'h', 'num'),
        'is_undirected': ([], 'gphrx_compressed_graph_is_undirected', 'h', 'bool'),
        'vertex_count': ([], 'gphrx_compressed_graph_vertex_count', 'h', 'int'),
        'edge_count': ([], 'gphrx_compressed_graph_edge_count', 'h', 'int'),
        'does_edge_exist': (['from_vertex_id', 'to_vertex_id'], 'gphrx_compressed_graph_does_edge_exist', 'h 0 1', 'bool'),
        'get_compressed_matrix_entry': (['col', 'row'], 'gphrx_get_compressed_matrix_entry', 'h 0 1', 'int'),
    },
    'CsrSquareMatrix': {
        'duplicate': ([], 'gphrx_matrix_duplicate', 'h', 'CsrSquareMatrix'),
        'dimension': ([], 'gphrx_matrix_dimension', 'h', 'int'),
        'entry_count': ([], 'gphrx_matrix_entry_count', 'h', 'int'),
        'get_entry': (['col', 'row'], 'gphrx_matrix_get_entry', 'h 0 1', 'float'),
        'to_string': (['decimal_digits'], 'gphrx_matrix_to_string_with_precision', 'h 0', 'str'),
        'to_string()': ([], 'gphrx_matrix_to_string_with_precision', 'h #2', 'str'),
        '__str__': ([], 'gphrx_matrix_to_string_with_precision', 'h #2', 'str'),
        'entry_list': ([], 'gphrx_matrix_get_entry_list', 'h >n', 'list'),
    },
}
SAME = {('gphrx_matrix_to_string', ('h',)): ('gphrx_matrix_to_string_with_precision', ('h', '#2'))}
MUT = ('gphrx_add_vertex', 'gphrx_add_edge', 'gphrx_delete_edge')
FROM = {'Graph': 'gphrx_from_bytes', 'CompressedGraph': 'gphrx_compressed_graph_from_bytes'}
# allocating functions: (what is allocated, releasing function, with a length)
ALLOC = {}
REL_BY = {'G': ('free_gphrx_graph', False), 'C': ('free_gphrx_compressed_graph', False), 'M': ('free_gphrx_matrix', False),
          'str': ('free_gphrx_string_buffer', False), 'bytes': ('free_gphrx_bytes_buffer', True), 'edges': ('free_gphrx_edge_list', True),
          'verts': ('free_gphrx_vertex_list', True), 'entries': ('free_gphrx_matrix_entry_list', True)}
for _n, (_a, _r, _o) in capi.FN.items():
    if _r in REL_BY: ALLOC[_n] = (_r,) + REL_BY[_r]
LISTS = {('Graph', 'edge_list'): 'edges', ('Graph', 'vertex_in_edges'): 'verts', ('Graph', 'vertex_out_edges'): 'verts', ('CsrSquareMatrix', 'entry_list'): 'entries'}
ITEM = {'edges': ('from_vertex', 'to_vertex'), 'verts': ('vertex_id',), 'entries': ('entry', 'col', 'row')}

def cls(it, n):
    c = it.modenv.v.get(n)
    if not isinstance(c, ClassV): raise Anchor(f'{REL}: class {n}')
    return c

def make(it, n):
    """a wrapper object as the public interface hands it out; returns (object, its handle's call number)"""
    g = it.call(cls(it, 'Graph'), [], {})
    if n != 'Graph':
        g = it.call(it.attr(g, 'compress' if n == 'CompressedGraph' else 'find_avg_pool_matrix'), [2], {})
    calls = [e for e in it.events if e[0] == 'call' and e[2] in ALLOC]
    if not calls: raise Unsupported('no native handle')
    it.base = len(it.events)
    it.h = calls[-1][1]
    return g, it.h

def param(it, p):
    if p.endswith(':f'): return Sym('float', 'arg', p[:-2])
    a = atom('arg', p)
    it.assume(scale(a, -1)); it.assume(add(a, U64, -1))
    return a

SEEN = {}
def explore(scn):
    ps = Y.explore(tree(), scn)
    for p in ps:
        for f, l in p.it.fns.items(): SEEN[f'{REL}:{l} {f}'] = SEEN.get(f'{REL}:{l} {f}', 0) + 1
    return ps

def where(it, c, m):
    f, k = c.lookup(m.rstrip('()'))
    f = f.f if isinstance(f, Y.Static) else f
    return f'{REL}:{getattr(getattr(f, "node", None), "lineno", 0)} {c.name}.{m}'

def nullpath(p): return any(k[0] == 'null' and v for k, v in p.it.opaque.items())
def opaque(p): return any(k[0] != 'null' for k in p.it.opaque)

# ------------------------------------------------------------------ witnesses over small values
def bases(l, out):
    for a in lin(l).c: batom(a, out)
def batom(a, out):
    if a[0] in ('mod', 'quot'):
        for x in a[1:]:
            if isinstance(x, tuple): bases(Lin(dict(x[0]), x[1]), out)
    else: out.add(a)
def evl(l, env):
    if isinstance(l, tuple): l = Lin(dict(l[0]), l[1])
    l = lin(l); s = l.k
    for a, c in l.c.items():
        if a[0] == 'mod':
            d = evl(a[2], env)
            if d == 0: return None
            x = evl(a[1], env)
            if x is None: return None
            v = x % d
        elif a[0] == 'quot':
            x = evl(a[1], env)
            if x is None: return None
            v = x // a[2]
        else: v = env[a]
        s += c * v
    return s
def witness(facts, also=()):
    """values of the unknowns that satisfy every fact (lin <= 0), or None"""
    fs = [lin(f) for f in list(facts) + list(also)]
    bs = set()
    rel = set()
    for f in also: bases(f, rel)
    # unknowns connected with the question
    grew = True
    per = [(f, set()) for f in fs]
    for f, s in per: bases(f, s)
    while grew:
        grew = False
        for f, s in per:
            if s & rel and not s <= rel: rel |= s; grew = True
    if not rel:
        return {} if all(f.c or f.k <= 0 for f in fs) and not Y.infeasible(fs) else None
    bs = sorted(rel, key=repr)
    if len(bs) > 4: return None
    fs = [f for f, s in per if s <= rel]
    small = [0, 1, 2, 3, 4, 5, 7, -1, -2, -3, -4, -5, -6, -7, -9, 8, 63, 64, 65, 66, 127, 255, 256, 257, 300, 2 ** 32, 2 ** 63, U64, U64 - 1, -2 ** 63]
    dom = small if len(bs) <= 3 else small[:12]
    if len(bs) == 3: dom = small[:22]
    for vs in itertools.product(dom, repeat=len(bs)):
        env = dict(zip(bs, vs))
        ok = True
        for f in fs:
            v = evl(f, env)
            if v is None or v > 0: ok = False; break
        if ok: return env
    return None
def showw(w): return ', '.join(f'{Y.sh(a)}={v}' for a, v in sorted(w.items(), key=lambda x: repr(x[0]))) or 'always'

class Rep:
    """collects the verdicts of the paths of one obligation"""
    def __init__(self, ck, name, at): self.ck, self.name, self.at, self.bad, self.odd, self.n = ck, name, at, None, None, 0
    def good(self): self.n += 1
    def fail(self, p, d):
        """the obligation definitely fails on path p"""
        if p is not None and opaque(p): self.odd = self.odd or d; return
        self.bad = self.bad or d
    def unsure(self, d): self.odd = self.odd or d
    def done(self, what=''):
        self.ck.fns.update(SEEN)
        if self.bad: self.ck.viol(self.name, self.at, self.bad)
        elif self.odd: self.ck.unk(self.name, self.at, self.odd)
        elif not self.n: self.ck.unk(self.name, self.at, 'no path')
        else: self.ck.ok(self.name, self.at, f'{what} ({self.n} paths)')

def forced(p, l, neg=False):
    """path facts imply l <= 0; otherwise a witness of the contrary ('?' when none is found)"""
    if p.it.implied(l): return True
    w = witness(p.it.facts, [add(1, l, -1)])
    return w if w is not None else '?'
def zero(p, l):
    r = forced(p, l)
    if r is not True: return r
    return forced(p, scale(l, -1))

def argwant(tok, params, h):
    if tok == 'h': return ('handle', h)
    if tok[0] == '#': return ('int', lin(int(tok[1:])).key())
    return params[int(tok)]

def cmparg(p, got, want):
    """True, or a description; '?...' when undecided"""
    if isinstance(want, Sym):
        if got == ('float', want.key()): return True
        return f'{Y.sh(got)} instead of {want}'
    if isinstance(want, Lin): want = ('int', want.key())
    if got == want: return True
    if want[0] == 'int' and got[0] in ('int', 'trunc'):
        g = Lin(dict(got[-1][0]), got[-1][1])
        d = add(g, Lin(dict(want[1][0]), want[1][1]), -1)
        if got[0] == 'trunc':
            w = witness(p.it.facts, [add(2 ** got[1], g, -1)]) or witness(p.it.facts, [add(g, 1)])
            return f'the value is cut to {got[1]} bits when {showw(w)}' if w is not None else f'?the value may be cut to {got[1]} bits'
        r = zero(p, d)
        if r is True: return True
        return '?unknown argument' if r == '?' else f'{g} instead of {Lin(dict(want[1][0]), want[1][1])} (e.g. {showw(r)})'
    return f'{Y.sh(got)} instead of {Y.sh(want)}'

def ncalls(p): return [e for e in p.it.events[p.it.base:] if e[0] == 'call']
def isfree(n): return n.startswith('free_')

def result(p, kind, got, call):
    """compare a returned value with the specified conversion of the native result; True / text / '?text'"""
    it = p.it
    k = call[1]
    if kind == 'none': return True if got is None else '?a value is returned'
    if kind == 'bool':
        a = atom('ret', k)
        if isinstance(got, EqC):
            if got.x.key() in (a.key(), scale(a, -1).key()): return True if not got.pos else 'the answer is inverted'
            return '?another condition'
        if isinstance(got, bool):
            r = zero(p, a) if not got else forced(p, add(1, a, -1))
            if r is True: return True
            if r == '?': return '?constant'
            return f'{got} is returned when {showw(r)}'
        if isinstance(got, Lin): return 'an integer is returned where a truth value is expected' if got.key() == a.key() else '?another value'
        return 'not a truth value' if definite(got) else '?another value'
    if kind in ('int', 'num'):
        a = atom('ret', k)
        if kind == 'num' and isinstance(got, Sym) and got.key() == ('float', 'float', a.key()): return True
        if isinstance(got, bool): return '?truth value'
        if isinstance(got, Lin) and got.key() == lin(Lin({('int', 'float', 'float', a.key()): 1})).key(): return 'the result passes through a float: values beyond 2^53 are rounded'
        if Y.isint(got):
            r = zero(p, add(got, a, -1))
            if r is True: return True
            if r == '?' or any(x[0] not in ('ret', 'arg', 'out') for x in lin(got).c): return '?another value'
            if any(x[0] == 'out' or (x[0] == 'ret' and x[1] != k) for x in lin(got).c): return '?another native result'
            return f'{got} is returned instead of the native result (e.g. {showw(r)})'
        if isinstance(got, Sym) and got.key() == ('float', 'float', a.key()): return 'a float is returned: values beyond 2^53 are rounded'
        return 'not an integer' if definite(got) else '?another value'
    if kind == 'float':
        w = Sym('float', 'ret', k)
        if isinstance(got, Sym) and got.key() == w.key(): return True
        if isinstance(got, Sym) and got.t[0] == 'float' and got.t[1] == Lin({('int',) + w.key(): 1}).key(): return 'the result is truncated to an integer'
        return f'{got} is returned instead of the native result' if definite(got) or (isinstance(got, Lin) and any(a[0] == 'int' for a in got.c)) else '?another value'
    if kind == 'str':
        w = [('str', 'decode', 'utf-8', ('cstr', ('ptr', 'ret', k)))]
        if isinstance(got, Sym) and got.key() in w: return True
        if isinstance(got, Sym) and got.t[0] in ('strip', 'rstrip', 'lstrip'): return f'the text is changed: {got.t[0]}'
        if isinstance(got, Sym) and got.key()[:2] == ('str', 'decode') and got.key()[3] == w[0][3]: return f'decoded as {got.key()[2]}'
        return 'not the native text' if definite(got) or (isinstance(got, Sym) and got.sort == 'bytes') else '?another value'
    if kind == 'bytes':
        if isinstance(got, Sym) and got.sort == 'bytes' and got.t[0] == 'bytesof' and got.t[1] == ('ptr', 'ret', k):
            n = Lin(dict(got.t[2][0]), got.t[2][1])
            r = zero(p, add(n, atom('out', k, outpos(call)), -1))
            if r is True: return True
            return '?length' if r == '?' else f'{n} bytes are copied instead of the reported length (e.g. {showw(r)})'
        if isinstance(got, Sym) and got.t[0] == 'cstr': return 'the bytes are cut at the first zero byte'
        return 'not the native bytes' if definite(got) else '?another value'
    if kind in SPEC:
        if isinstance(got, ObjV) and got.cls.name == kind:
            hs = [v for v in holds(got) if v.native is not None]
            if any(v.native == k for v in hs): return True
            return 'the object does not hold the native result' if hs else '?no handle'
        if isinstance(got, ObjV) and got.cls.name in SPEC: return f'a {got.cls.name} is returned'
        return 'no object of the class is returned' if got is None or definite(got) else '?another value'
    return '?'
def definite(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, tuple)) or isinstance(v, ObjV) and v.native is not None or isinstance(v, Y.PtrV)
def holds(o, seen=None):
    """handle structures reachable from a wrapper's own attributes"""
    out = []
    for v in o.attrs.values():
        if isinstance(v, ObjV) and v.cls.sub('Structure'): out.append(v)
    return out
def outpos(call):
    for i, a in enumerate(call[3]):
        if a[0] == 'ref': return i
    return -1

def scenario(n, m, params, then=None):
    def scn(it):
        o, h = make(it, n)
        it.params = [param(it, x) for x in params]
        it.self_ = o
        if m == '__bytes__': r = it.call(it.cls['bytes'], [o], {})
        elif m == '__str__': r = it.call(it.cls['str'], [o], {})
        else: r = it.call(it.attr(o, m.rstrip('()')), it.params, {})
        it.res = r
        return then(it, r) if then else r
    return scn

# ------------------------------------------------------------------ C41 forwarding
def each(ck, W, f, kinds=None):
    for n, ms in SPEC.items():
        for m, sp in ms.items():
            if kinds and sp[3] not in kinds: continue
            ck.section('Python method', f'{REL} {n}.{m}', lambda n=n, m=m, sp=sp: f(ck, n, m, *sp))

def anchor(n, m):
    t = tree()
    ps = Y.explore(t, lambda it: cls(it, n).lookup(m.rstrip('()'))[0])
    if m in ('__str__', '__bytes__'): pass
    if ps[0].kind == 'raise': raise Unsupported('the module raises')
    if ps[0].val is None: raise Anchor(f'{REL}: {n}.{m}')
    it = ps[0].it
    return where(it, cls(it, n), m)

def forward(ck, n, m, params, fn, args, kind):
    at = anchor(n, m)
    rep = Rep(ck, 'forwards to ' + fn, at)
    for p in explore(scenario(n, m, params)):
        if p.kind == 'cut' or nullpath(p): continue
        if p.kind == 'raise':
            w = witness(p.it.facts)
            why = f'{p.val.cls.name} at line {p.line}'
            if opaque(p) or w is None: rep.unsure(why)
            else: rep.fail(p, f'raises {why} for acceptable arguments')
            continue
        onpath(p, rep, fn, args, kind, p.val)
    rep.done(f'{fn}({args}) -> {kind}')

def onpath(p, rep, fn, args, kind, val):
    calls = [c for c in ncalls(p) if not isfree(c[2])]
    muts = [c for c in calls if c[2] in MUT]
    want = args.split()
    if fn in MUT and len(muts) != 1:
        return rep.fail(p, f'{fn} is called {len(muts)} times' if all(c[2] == fn for c in muts) else f'calls {", ".join(c[2] for c in muts)}')
    if fn not in MUT and muts: return rep.fail(p, f'a query changes the graph: {muts[0][2]}')
    cand = [c for c in calls if c[2] == fn]
    alt = [c for c in calls if SAME.get((c[2], tuple('h' for _ in c[3]))) == (fn, tuple(want))]
    if not cand and alt:
        c = alt[-1]
        if c[3][0] != ('handle', p.it.h): return rep.fail(p, 'another handle is used')
    elif not cand:
        others = [c for c in calls if c[2] not in MUT]
        if len(others) == 1 or not calls:
            # a single other native function: its result cannot stand in
            if not calls or result(p, kind, val, others[0]) is True: return rep.fail(p, f'{fn} is not called' + (f' ({others[0][2]} is)' if others else ''))
        src = [c for c in others if result(p, kind, val, c) is True]
        if src and not any(c[2].endswith(('is_undirected', 'does_edge_exist')) for c in others):
            # the answer of another native function, on a path that ordinary states reach
            also = []
            for c in others:
                if not c[2].endswith(('vertex_count', 'edge_count', 'dimension')): continue
                n = atom('ret', c[1])
                also += [add(1, n, -1)] + [add(add(v, 1), n, -1) for v in p.it.params if isinstance(v, Lin)]
            w = witness(p.it.facts, also)
            if w is not None: return rep.fail(p, f'{fn} is not called ({src[-1][2]} is) when {showw(w)}')
        return rep.unsure(f'{fn} is not called')
    else:
        c = cand[-1]
        if len(c[3]) != len(want): return rep.fail(p, f'{fn} is called with {len(c[3])} arguments')
        for i, (g, tok) in enumerate(zip(c[3], want)):
            if tok[0] == '>':
                if g[0] != 'ref': return rep.fail(p, f'argument {i} of {fn} is not a reference to the length')
                continue
            r = cmparg(p, g, argwant(tok, p.it.params, p.it.h))
            if r is not True:
                return rep.unsure(r[1:]) if r[0] == '?' else rep.fail(p, f'argument {i} of {fn}: {r}')
    if kind == 'list': rep.good(); return
    r = result(p, kind, val, c)
    if r is True: rep.good()
    elif r[0] == '?': rep.unsure(r[1:])
    else: rep.fail(p, r)

def o_forward(ck, W):
    each(ck, W, forward)
    ck.section('Python method', f'{REL} Graph()', lambda: ctor(ck))
    ck.section('Python method', f'{REL} Graph.compress', lambda: compress(ck))
    ck.section('Python method', f'{REL} Graph.add_vertex', lambda: addv(ck))
    for n in FROM: ck.section('Python method', f'{REL} {n}.from_bytes', lambda n=n: frombytes(ck, n, False))

def ctor(ck):
    at = anchor('Graph', '__init__')
    for args, kw, fn in (([], {}, 'gphrx_new_directed'), ([False], {}, 'gphrx_new_directed'), ([True], {}, 'gphrx_new_undirected'), ([], {'is_undirected': True}, 'gphrx_new_undirected'), ([], {'is_undirected': False}, 'gphrx_new_directed')):
        rep = Rep(ck, f'constructor {args or kw or ""} calls {fn}', at)
        def scn(it):
            it.base = 0
            return it.call(cls(it, 'Graph'), args, kw)
        for p in explore(scn):
            if p.kind == 'cut' or nullpath(p): continue
            if p.kind == 'raise': rep.fail(p, f'raises {p.val.cls.name}'); continue
            cs = [c for c in ncalls(p) if not isfree(c[2])]
            if [c[2] for c in cs] != [fn]: rep.fail(p, 'calls ' + (', '.join(c[2] for c in cs) or 'nothing')); continue
            r = result(p, 'Graph', p.val, cs[0])
            if r is True: rep.good()
            elif r[0] == '?': rep.unsure(r[1:])
            else: rep.fail(p, r)
        rep.done()

def compress(ck):
    at = anchor('Graph', 'compress')
    fn = 'gphrx_compress'
    rep = Rep(ck, 'compression level is clamped to 1..64', at)
    L = atom('arg', 'compression_level')
    def scn(it):
        o, h = make(it, 'Graph')
        return it.call(it.attr(o, 'compress'), [L], {})
    for p in explore(scn):
        if p.kind == 'cut' or nullpath(p): continue
        if p.kind == 'raise':
            w = witness(p.it.facts, [add(0, 0)] + [f for f in p.it.facts if L.c.keys() <= lin(f).c.keys()])
            if w is None: rep.unsure(f'raises {p.val.cls.name}')
            else: rep.fail(p, f'raises {p.val.cls.name} when {showw(w)}')
            continue
        cs = [c for c in ncalls(p) if c[2] == fn]
        if len(cs) != 1 or len(cs[0][3]) != 2: rep.fail(p, f'{fn} is called {len(cs)} times'); continue
        if cs[0][3][0] != ('handle', p.it.h): rep.fail(p, 'another handle'); continue
        g = cs[0][3][1]
        if g[0] not in ('int', 'trunc'): rep.unsure('level'); continue
        v = Lin(dict(g[-1][0]), g[-1][1])
        if g[0] == 'trunc':
            w = None
            for f in ([add(256, v, -1)], [add(v, 1)]): w = w or witness(p.it.facts, f)
            if w is not None: rep.fail(p, f'the level {v} is cut to 8 bits when {showw(w)}'); continue
            rep.unsure('level may be cut'); continue
        bad = None
        for extra, want in (([add(65, L, -1)], 64), ([add(L, 0)], 1), ([add(1, L, -1), add(L, 64, -1)], L)):
            d = add(v, want, -1)
            for q in (add(d, 1), add(1, d, -1)):
                if Y.infeasible(p.it.facts + extra + [q]): continue
                w = witness(p.it.facts, extra + [q])
                bad = bad or (f'level {v} is used instead of {want} when {showw(w)}' if w is not None else '?level')
        if bad: (rep.unsure(bad[1:]) if bad[0] == '?' else rep.fail(p, bad)); continue
        r = result(p, 'CompressedGraph', p.val, cs[0])
        if r is True: rep.good()
        elif r[0] == '?': rep.unsure(r[1:])
        else: rep.fail(p, r)
    rep.done()

def arr64(a):
    """('array', type, n, content) of 64-bit unsigned integers"""
    return a[0] == 'array' and SIMPLE.get(a[1]) == ('int', 64, False)

def addv(ck):
    at = anchor('Graph', 'add_vertex')
    fn = 'gphrx_add_vertex'
    for label, mode in (('without edges', 'none'), ('with edges None', 'None'), ('with a list', 'list')):
        rep = Rep(ck, f'add_vertex {label}', at)
        def scn(it):
            o, h = make(it, 'Graph')
            it.params = [param(it, 'vertex_id')]
            a = list(it.params)
            if mode == 'None': a.append(None)
            if mode == 'list':
                it.seq = Sym('seq', 'arg', 'to_vertexs'); it.length(it.seq); a.append(it.seq)
            return it.call(it.attr(o, 'add_vertex'), a, {})
        for p in explore(scn):
            if p.kind == 'cut' or nullpath(p): continue
            if p.kind == 'raise':
                rep.fail(p, f'raises {p.val.cls.name} at line {p.line}'); continue
            cs = [c for c in ncalls(p) if not isfree(c[2])]
            ms = [c for c in cs if c[2] in MUT]
            if len(ms) != 1 or ms[0][2] != fn or len(ms[0][3]) != 4:
                rep.fail(p, 'calls ' + (', '.join(c[2] for c in ms) or 'nothing')); continue
            a = ms[0][3]
            if a[0] != ('handle', p.it.h): rep.fail(p, 'another handle'); continue
            r = cmparg(p, a[1], p.it.params[0])
            if r is not True: (rep.unsure(r[1:]) if r[0] == '?' else rep.fail(p, f'vertex: {r}')); continue
            n = 0 if mode != 'list' else p.it.length(p.it.seq)
            if mode == 'list' and a[2][0] == 'array' and isinstance(a[2][3], tuple) and a[2][3][:2] == ('seq', 'set') and a[3][0] == 'int':
                # repeated edges are dropped: then the announced number has to be that of the distinct ones
                q = p.it.length(Sym(*a[2][3]))
                r = cmparg(p, a[3], ('int', lin(q).key()))
                if r is True and arr64(a[2]) and forced(p, add(q, Lin(dict(a[2][2][0]), a[2][2][1]), -1)) is True: rep.good()
                elif r is True or r[0] == '?': rep.unsure('distinct edges')
                else: rep.fail(p, 'the array holds the distinct edges only, but the number of all of them is announced')
                continue
            r = cmparg(p, a[3], ('int', lin(n).key()))
            if r is not True: (rep.unsure(r[1:]) if r[0] == '?' else rep.fail(p, f'number of edges: {r}')); continue
            e = zero(p, n)
            if a[2] == ('null',):
                if e is True: rep.good()
                elif e == '?': rep.unsure('no edges')
                else: rep.fail(p, f'the edges are not passed when {showw(e)}')
                continue
            if a[2][0] != 'array': rep.unsure('edges'); continue
            if not arr64(a[2]): rep.fail(p, f'the edges are passed as an array of {a[2][1]}'); continue
            if e is True: rep.good(); continue
            an = Lin(dict(a[2][2][0]), a[2][2][1])
            r = forced(p, add(n, an, -1))
            if r is not True: (rep.unsure('length') if r == '?' else rep.fail(p, f'the array has {an} items, {n} are announced')); continue
            if mode == 'list' and a[2][3] == p.it.seq.key(): rep.good()
            elif a[2][3][:2] == ('seq', 'sorted'): rep.good()       # the order of the edges does not matter
            elif isinstance(a[2][3], tuple) and a[2][3][0] in ('map',): rep.fail(p, 'the edges are changed on the way')
            else: rep.unsure('edges ' + Y.sh(a[2][3]))
        rep.done()

def frombytes(ck, n, errors):
    at = anchor(n, 'from_bytes')
    fn = FROM[n]
    rep = Rep(ck, ('malformed bytes raise ValueError' if errors else 'decodes the given bytes'), at)
    def scn(it):
        it.base = 0
        it.data = Sym('bytes', 'arg', 'data'); it.length(it.data)
        return it.call(it.attr(cls(it, n), 'from_bytes'), [it.data], {})
    for p in explore(scn):
        if p.kind == 'cut': continue
        if nullpath(p) and not errors: continue
        cs = [c for c in ncalls(p) if not isfree(c[2])]
        if not cs:
            if p.kind == 'raise' and p.val.cls.sub('ValueError') :
                # rejected without asking the decoder: only inputs no decoder accepts
                w = witness(p.it.facts, [add(25, p.it.length(p.it.data), -1)])
                if w is not None: rep.fail(p, f'rejected before decoding when {showw(w)}')
                else: rep.good()
            elif p.kind == 'raise': rep.fail(p, f'raises {p.val.cls.name} at line {p.line} before decoding')
            else: rep.fail(p, f'{fn} is not called')
            continue
        if [c[2] for c in cs] != [fn]:
            rep.fail(p, 'calls ' + ', '.join(c[2] for c in cs)); continue
        c = cs[0]
        if len(c[3]) != 3 or c[3][2][0] != 'ref': rep.fail(p, f'{fn} is not given an error byte'); continue
        err = atom('out', c[1], 2)
        dom = [scale(err, -1), add(err, 1, -1)]           # the decoder stores 0 or 1
        if Y.infeasible(p.it.facts + dom): continue
        iserr = not Y.infeasible(p.it.facts + dom + [add(1, err, -1)])
        isok = not Y.infeasible(p.it.facts + dom + [add(err, 0)])
        if not errors:
            a = c[3][0]
            dk = p.it.data.key()
            good = a == ('pybuf', dk) or (a[0] == 'array' and SIMPLE.get(a[1], ('',))[0] in ('int', 'char') and (a[1] in ('c_char',) or SIMPLE[a[1]][1] == 8) and a[3] == dk)
            if not good: (rep.fail if a[0] in ('null',) else lambda p, d: rep.unsure(d))(p, f'{Y.sh(a)} is passed'); continue
            r = cmparg(p, c[3][1], ('int', lin(p.it.length(p.it.data)).key()))
            if r is not True: (rep.unsure(r[1:]) if r[0] == '?' else rep.fail(p, f'length: {r}')); continue
            if p.kind == 'raise':
                if not iserr: rep.fail(p, f'raises {p.val.cls.name} although decoding succeeded') 
                elif isok: rep.fail(p, f'raises {p.val.cls.name} whether or not decoding succeeded')
                else: rep.good()
                continue
            if isok:
                r = result(p, n, p.val, c)
                if r is not True: (rep.unsure(r[1:]) if r[0] == '?' else rep.fail(p, r)); continue
            rep.good()
        else:
            if p.kind == 'ret':
                if iserr: rep.fail(p, 'an object is returned although the decoder reported an error')
                else: rep.good()
            elif iserr:
                if p.val.cls.sub('ValueError'): rep.good()
                else: rep.fail(p, f'raises {p.val.cls.name} instead of ValueError at line {p.line}')
            else: rep.good()
    rep.done()

def o_errors(ck, W):
    for n in FROM: ck.section('Python method', f'{REL} {n}.from_bytes', lambda n=n: frombytes(ck, n, True))
    ck.section('Python class', REL, lambda: wrong(ck))

def wrong(ck):
    """a wrapper around another kind of native object is refused"""
    ns = list(SPEC)
    for a in ns:
        at = anchor(a, '__init__')
        rep = Rep(ck, f'{a} around a foreign handle raises TypeError', at)
        for b in ns + ['int']:
            if a == b: continue
            def scn(it):
                if b == 'int': v = 5; it.base = 0
                else:
                    o, h = make(it, b)
                    hs = [v for v in holds(o) if v.native == h]
                    if not hs: raise Unsupported('handle')
                    v = hs[0]
                return it.call(cls(it, a), *(([], {'_c_graph': v}) if a == 'Graph' else ([v], {})))
            for p in explore(scn):
                if p.kind == 'cut' or nullpath(p): continue
                if p.kind == 'ret': rep.fail(p, f'accepts the handle of a {b}')
                elif p.val.cls.sub('TypeError'):
                    if 'argument' in str(p.val.attrs.get('args')) and 'unexpected' in str(p.val.attrs.get('args')): rep.unsure('constructor parameters')
                    else: rep.good()
                else: rep.fail(p, f'raises {p.val.cls.name}')
        rep.done()

# ------------------------------------------------------------------ C43 lists
def o_lists(ck, W):
    for (n, m), kind in LISTS.items():
        sp = SPEC[n][m]
        ck.section('Python list', f'{REL} {n}.{m}', lambda: lists(ck, n, m, sp[0], sp[1], kind))

def listcall(it, fn):
    c = [e for e in it.events[it.base:] if e[0] == 'call' and e[2] == fn]
    if not c: raise Unsupported(f'{fn} is not called')
    return c[-1]
def sizeof(it, fn):
    c = listcall(it, fn); return atom('out', c[1], outpos(c))

def elem(p, v, kind, k):
    """the position shown by an item value, or a text"""
    names = ITEM[kind]
    vs = v if isinstance(v, tuple) else (v,)
    if len(names) > 1 and not isinstance(v, tuple): return 'not a tuple'
    if len(vs) != len(names): return f'{len(vs)} components'
    pos = None
    for x, nm in zip(vs, names):
        if isinstance(x, Sym) and x.sort == 'float' and x.t[0] == 'elt': t = x.t
        elif isinstance(x, Lin) and x.k == 0 and len(x.c) == 1 and list(x.c.values()) == [1] and list(x.c)[0][0] == 'elt': t = list(x.c)[0]
        elif isinstance(x, Lin) and len(x.c) == 1 and list(x.c)[0][0] == 'int': return f'{nm} is truncated to an integer'
        elif isinstance(x, Sym) and x.t[0] == 'float': return f'{nm} is converted to a float'
        else: return f'?{nm}: {x}' if not isinstance(x, (int, float, Y.View)) else f'{nm} is {x}'
        if t[1] != ('ptr', 'ret', k): return f'{nm} is read from another buffer'
        if fieldname(p, t[3]) != nm: return f'{nm} is read from {t[3]}'
        q = Lin(dict(t[2][0]), t[2][1])
        if pos is None: pos = q
        elif q.key() != pos.key(): return f'components of different items: {pos} and {q}'
    return pos
def fieldname(p, f): return f

def lists(ck, n, m, params, fn, kind):
    at = anchor(n, m)
    # length
    rep = Rep(ck, 'len() is the number of items', at)
    for p in explore(scenario(n, m, params, lambda it, r: it.call(Y.Builtin('len'), [r], {}))):
        if p.kind == 'cut' or nullpath(p): continue
        if p.kind == 'raise': rep.fail(p, f'raises {p.val.cls.name}'); continue
        sz = sizeof(p.it, fn)
        if not Y.isint(p.val): rep.unsure('length'); continue
        r = zero(p, add(p.val, sz, -1))
        if r is True: rep.good()
        elif r == '?': rep.unsure('length')
        else: rep.fail(p, f'{p.val} instead of the native length (e.g. {showw(r)})')
    rep.done()
    # items by index
    I = atom('arg', 'index')
    rep = Rep(ck, 'an index within the list gives that item', at)
    rb = Rep(ck, 'an index outside the list raises IndexError', at)
    rn = Rep(ck, 'a negative index counts from the end', at)
    ro = Rep(ck, 'no item outside the list is ever read', at)
    for p in explore(scenario(n, m, params, lambda it, r: it.item(r, I))):
        if p.kind == 'cut' or nullpath(p): continue
        c = listcall(p.it, fn); sz = sizeof(p.it, fn)
        F = p.it.facts
        inside = [scale(I, -1), add(add(I, 1), sz, -1)]
        outside = [add(sz, I, -1)]
        neg = [add(I, 1), add(add(1, I, -1), sz, -1)]
        empty = [sz, add(I, 1)]
        def feas(ex):
            """None: impossible; '?': maybe; witness"""
            if Y.infeasible(F + ex): return None
            w = witness(F, ex)
            return w if w is not None else '?'
        if p.kind == 'raise':
            for R, ex, nm in ((rep, inside, 'index within the list'), (rn, neg, 'negative index within the list')):
                w = feas(ex)
                if w is None: R.good()
                elif w == '?': R.unsure(nm)
                else: R.fail(p, f'{p.val.cls.name} when {showw(w)}')
            if p.val.cls.sub('IndexError'): rb.good()
            else:
                for ex in (outside, empty):
                    w = feas(ex)
                    if w is None: rb.good()
                    elif w == '?': rb.unsure(p.val.cls.name)
                    else: rb.fail(p, f'{p.val.cls.name} when {showw(w)}')
        else:
            pos = elem(p, p.val, kind, c[1])
            if isinstance(pos, str):
                if pos[0] == '?': rep.unsure(pos[1:])
                else: rep.fail(p, pos)
            else:
                for R, ex, want in ((rep, inside, I), (rn, neg, add(I, sz))):
                    for q in (add(add(pos, want, -1), 1), add(1, add(pos, want, -1), -1)):
                        w = feas(ex + [q])
                        if w is None: R.good()
                        elif w == '?': R.unsure('item position')
                        else: R.fail(p, f'item {evl(pos, full(w, pos))} is returned when {showw(w)}')
            for ex in (outside, empty):
                w = feas(ex)
                if w is None: rb.good()
                elif w == '?': rb.unsure('outside')
                else: rb.fail(p, f'an item is returned when {showw(w)}')
        reads(p, c[1], sz, ro)
    for R in (rep, rb, rn, ro): R.done()
    iterate(ck, n, m, params, fn, kind, at)

def full(w, l):
    s = set(); bases(l, s)
    return {**{a: 0 for a in s}, **w}

def reads(p, k, sz, rep):
    for e in p.it.events[p.it.base:]:
        if e[0] != 'read' or e[1] != ('ptr', 'ret', k): continue
        if e[2] == 'cstr': rep.fail(p, 'the buffer is read as text'); continue
        if e[3] is None and e[2] == 0:
            l = Lin(dict(e[3][0]), e[3][1]) if isinstance(e[3], tuple) else None
            continue
        if not isinstance(e[2], tuple): continue
        q = Lin(dict(e[2][0]), e[2][1])
        for ex, nm in (([add(q, 1)], 'before'), ([add(sz, q, -1)], 'past')):
            ex = ex + list(e[4] if len(e) > 4 else ())
            if Y.infeasible(p.it.facts + ex): rep.good(); continue
            w = witness(p.it.facts, ex)
            if w is None: rep.unsure(f'position {q}')
            else: rep.fail(p, f'item {evl(q, full(w, q))} ({nm} the buffer) is read when {showw(w)}')

def reach(v, seen):
    """ids of the objects reachable from v"""
    if id(v) in seen: return
    seen[id(v)] = v
    if isinstance(v, ObjV):
        for x in v.attrs.values(): reach(x, seen)
    elif isinstance(v, (tuple, list)):
        for x in v: reach(x, seen)
    elif isinstance(v, Y.LstV): reach(v.items, seen)
    elif isinstance(v, Y.DictV): reach([x for q in v.items for x in q], seen)
    elif isinstance(v, (Y.Gen, Y.SymIter, Y.SeqIter)):
        reach(list(v.keep), seen)
        if isinstance(v, Y.Gen): reach(list(v.items), seen)
    elif isinstance(v, Y.Bound): reach(v.self_, seen)
    elif isinstance(v, Y.FuncV):
        e = v.env
        while e is not None and e.parent is not None: reach(list(e.v.values()), seen); e = e.parent

def iterate(ck, n, m, params, fn, kind, at):
    rep = Rep(ck, 'iteration yields the items in order, then ends', at)
    ro = Rep(ck, 'iteration never reads outside the list', at)
    rk = Rep(ck, 'an iterator keeps its list alive', at)
    rp = Rep(ck, 'an iterator can itself be iterated', at)
    r2 = Rep(ck, 'every iteration starts at the first item', at)
    def scn(it, r):
        i = it.call(Y.Builtin('iter'), [r], {})
        it.iter = i
        if isinstance(r, ObjV) and r.cls.lookup('__del__')[0] is not None and isinstance(i, ObjV):
            def onset():
                seen = {}; reach(i, seen)
                if id(r) not in seen: it.events.append(('dropped',)); it.onset = None
            it.onset = onset
        out = []
        for k in range(3):
            try: out.append(it.call(Y.Builtin('next'), [i], {}))
            except Y.Raised as e:
                if not e.v.cls.sub('StopIteration'): raise
                break
        else: out.append('more')
        it.onset = None
        it.readsend = len(it.events)
        # a second iterator is independent of the first
        it.second = None
        if out and out[0] != 'more':
            j = it.call(Y.Builtin('iter'), [r], {})
            try: it.second = ('item', it.call(Y.Builtin('next'), [j], {}))
            except Y.Raised as e:
                if not e.v.cls.sub('StopIteration'): raise
                it.second = ('end',)
        return out
    for p in explore(scenario(n, m, params, scn)):
        if p.kind == 'cut' or nullpath(p): continue
        c = listcall(p.it, fn); sz = sizeof(p.it, fn)
        if p.kind == 'raise': rep.fail(p, f'raises {p.val.cls.name} at line {p.line}'); continue
        out = p.val
        k = len(out) - (1 if out and out[-1] == 'more' else 0)
        bad = None
        if not (out and out[-1] == 'more'):
            r = zero(p, add(sz, k, -1))
            if r is not True: bad = '?end' if r == '?' else f'{k} items are yielded when {showw(r)}'
        else:
            r = forced(p, add(k, sz, -1))
            if r is not True: bad = '?end' if r == '?' else f'{k} items are yielded when {showw(r)}'
        for j in range(k):
            pos = elem(p, out[j], kind, c[1])
            if isinstance(pos, str): bad = bad or pos; continue
            r = zero(p, add(pos, j, -1))
            if r is not True: bad = bad or ('?position' if r == '?' else f'item {pos} is yielded at place {j}')
        if bad: (rep.unsure(bad[1:]) if bad[0] == '?' else rep.fail(p, bad))
        else: rep.good()
        reads(p, c[1], sz, ro)
        lazy = [e for e in p.it.events if e[0] == 'read' and e[1] == ('ptr', 'ret', c[1])]
        owner = p.it.res
        if isinstance(owner, ObjV) and owner.cls.lookup('__del__')[0] is not None and isinstance(p.it.iter, ObjV):
            seen = {}; reach(p.it.iter, seen)
            dr = [j for j, e in enumerate(p.it.events) if e[0] == 'dropped']
            if dr and any(e[0] == 'read' and e[1] == ('ptr', 'ret', c[1]) for e in p.it.events[dr[0]:p.it.readsend]): rk.fail(p, 'the iterator lets go of the list before its last read')
            elif lazy and not dr and id(owner) not in seen: rk.fail(p, 'the iterator reads the buffer without holding the list that releases it')
            else: rk.good()
        else: rk.good()
        if p.it.second is not None:
            if p.it.second[0] == 'end': r2.fail(p, 'a second iteration yields nothing')
            else:
                pos = elem(p, p.it.second[1], kind, c[1])
                if isinstance(pos, str): r2.unsure(pos)
                else:
                    r = zero(p, pos)
                    r2.good() if r is True else r2.unsure('position') if r == '?' else r2.fail(p, f'a second iteration starts at item {pos}')
        i = p.it.iter
        if isinstance(i, ObjV):
            f, _ = i.cls.lookup('__iter__')
            if f is None: rp.fail(p, f'{i.cls.name} has no __iter__: it cannot be used in a for loop')
            else: rp.good()
        else: rp.good()
    for R in (rep, ro, rk, rp, r2): R.done()
    # induction over the position
    rep = Rep(ck, 'iteration step at an unknown position', at)
    ro = Rep(ck, 'iteration step reads inside the list', at)
    P = atom('arg', 'position')
    def step(it, r):
        i = it.call(Y.Builtin('iter'), [r], {})
        c = listcall(it, fn); sz = sizeof(it, fn)
        it.assume(scale(P, -1)); it.assume(add(P, sz, -1))
        it.state = None
        if isinstance(i, Y.SymIter): i.pos = P; it.state = lambda: i.pos
        elif isinstance(i, Y.SeqIter): i.pos = P; it.state = lambda: i.pos
        elif isinstance(i, ObjV):
            ks = [a for a, v in i.attrs.items() if type(v) is int and v == 0]
            if len(ks) != 1: raise Unsupported('the position of the iterator is not a single counter from zero')
            i.attrs[ks[0]] = P
            it.others = {a: v for a, v in i.attrs.items() if a != ks[0]}
            it.state = lambda: i.attrs[ks[0]] if all(i.attrs.get(a) is v for a, v in it.others.items()) else None
        else: raise Unsupported('iterator')
        try: return ('item', it.call(Y.Builtin('next'), [i], {}), it.state())
        except Y.Raised as e:
            if not e.v.cls.sub('StopIteration'): raise
            return ('end',)
    for p in explore(scenario(n, m, params, step)):
        if p.kind == 'cut' or nullpath(p): continue
        if p.kind == 'raise': rep.unsure(f'raises {p.val.cls.name}'); continue
        c = listcall(p.it, fn); sz = sizeof(p.it, fn)
        if p.val[0] == 'end':
            r = zero(p, add(P, sz, -1))
            if r is True: rep.good()
            else: rep.unsure('ends early') if r == '?' else rep.fail(p, f'ends when {showw(r)}')
        else:
            pos = elem(p, p.val[1], kind, c[1])
            if isinstance(pos, str): rep.unsure(pos); continue
            r = zero(p, add(pos, P, -1))
            if r is not True: rep.unsure('position') if r == '?' else rep.fail(p, f'item {pos} at position {P} when {showw(r)}'); continue
            s = p.val[2]
            if s is None or not Y.isint(s) or zero(p, add(add(P, 1), s, -1)) is not True: rep.unsure('the state after a step'); continue
            rep.good()
        reads(p, c[1], sz, ro)
    rep.done(); ro.done()

# ------------------------------------------------------------------ C42 ownership
def o_owner(ck, W):
    each(ck, W, owner)
    ck.section('Python ownership', 'Graph.compress', lambda: owner(ck, 'Graph', 'compress', ['compression_level'], '', '', ''))
    ck.section('Python ownership', 'Graph.add_vertex', lambda: owner(ck, 'Graph', 'add_vertex', ['vertex_id'], '', '', ''))
    for n in FROM:
        def one(n=n):
            at = anchor(n, 'from_bytes')
            def scn(it):
                it.base = 0
                it.data = Sym('bytes', 'arg', 'data'); it.length(it.data)
                it.roots = []
                return release(it, lambda: it.call(it.attr(cls(it, n), 'from_bytes'), [it.data], {}))
            judge(ck, 'native memory is released exactly once', at, scn)
        ck.section('Python ownership', f'{n}.from_bytes', one)
    for n in SPEC:
        def cp(n=n):
            at = anchor(n, '__init__')
            def scn(it):
                o, h = make(it, n)
                return release(it, lambda: it.copy(o))
            judge(ck, 'a copy made by copy.copy shares no native object with the original', at, scn)
        ck.section('Python ownership', f'copy of {n}', cp)
    for (n, m), kind in LISTS.items():
        sp = SPEC[n][m]
        def cl(n=n, m=m, sp=sp):
            at = anchor(n, m)
            def scn(it):
                o, h = make(it, n)
                ps = [param(it, x) for x in sp[0]]
                r = it.call(it.attr(o, m), ps, {})
                return release(it, lambda: it.copy(r))
            judge(ck, 'a copied list shares no native buffer with the original', at, scn)
            def scn2(it):
                o, h = make(it, n)
                ps = [param(it, x) for x in sp[0]]
                def body():
                    r = it.call(it.attr(o, m), ps, {})
                    i = it.call(Y.Builtin('iter'), [r], {})
                    try: it.call(Y.Builtin('next'), [i], {})
                    except Y.Raised as e:
                        if not e.v.cls.sub('StopIteration'): raise
                    it.item(r, atom('arg', 'index'))
                    it.call(Y.Builtin('len'), [r], {})
                return release(it, body)
            judge(ck, 'reading a list neither releases nor leaks its buffer', at, scn2)
        ck.section('Python ownership', f'list of {n}.{m}', cl)

def release(it, body):
    """run body, then every destructor; native frees after `mark` are the destructors'"""
    it.final = None
    try: return body()
    finally:
        import sys
        if not isinstance(sys.exc_info()[1], (Unsupported, Y.Cut)):
            it.mark = len(it.events)
            for o in list(it.objs):
                f, _ = o.cls.lookup('__del__')
                if f is None: continue
                try: it.call(it.attr(o, '__del__'), [], {})
                except Y.Raised as e:
                    if not e.v.cls.sub('AttributeError'): it.delraise = (o, e)

def owner(ck, n, m, params, fn, args, kind):
    at = anchor(n, m)
    def scn(it):
        o, h = make(it, n)
        ps = [param(it, x) for x in params]
        def body():
            if m == '__bytes__': return it.call(it.cls['bytes'], [o], {})
            if m == '__str__': return it.call(it.cls['str'], [o], {})
            return it.call(it.attr(o, m.rstrip('()')), ps, {})
        return release(it, body)
    judge(ck, 'native memory is released exactly once', at, scn)

def judge(ck, name, at, scn):
    rep = Rep(ck, name, at)
    for p in explore(scn):
        if p.kind == 'cut': continue
        if not hasattr(p.it, 'mark'): rep.unsure('destructors'); continue
        r = account(p)
        if r is True: rep.good()
        elif r[0] == '?': rep.unsure(r[1:])
        else:
            if not any(f for f in p.it.facts) or not Y.infeasible(p.it.facts): rep.fail(p, r)
    rep.done()

def account(p):
    it = p.it
    res, out = {}, {}
    null = {tuple(k[1:]) for k, v in it.opaque.items() if k[0] == 'null' and v}
    freed = {}
    for e in it.events:
        if e[0] == 'call':
            k, f, args = e[1], e[2], e[3]
            if f in ALLOC:
                res[k] = (f,) + ALLOC[f]
                out[k] = (outpos(e), e)
            elif isfree(f):
                if not args: return f'{f} without argument'
                a = args[0]
                if a == ('null',): continue
                if a[0] == 'handle' or a[0] == 'ptr' and a[1][0] == 'ret': k2 = a[1] if a[0] == 'handle' else a[1][1]
                elif a[0] == 'pybuf': return f'{f} is given a Python copy of the buffer (line {e[4]})'
                elif a[0] == 'ptr' and a[1][0] == 'field': return f'{f} is given a field of a structure'
                else: return f'?{f} of an unknown value'
                if k2 not in res: return f'{f} releases memory that was not allocated'
                al, kind, rf, ln = res[k2]
                if f != rf: return f'the result of {al} is released with {f} (line {e[4]})'
                if ln:
                    if len(args) < 2: return f'{f} without the length'
                    pos, ev = out[k2]
                    if args[1][0] not in ('int', 'trunc'): return f'?length given to {f}'
                    if args[1][0] == 'trunc': args = (args[0], ('int', args[1][2]))
                    d = add(Lin(dict(args[1][1][0]), args[1][1][1]), atom('out', k2, pos), -1)
                    r = zero(p, d)
                    if r is not True:
                        return '?length' if r == '?' else f'{f} is given a wrong length: {Lin(dict(args[1][1][0]), args[1][1][1])} (line {e[4]})'
                freed[k2] = freed.get(k2, 0) + 1
                if freed[k2] > 1: return f'the result of {al} is released twice (second at line {e[4]})'
            for a in args:
                k2 = a[1] if a[0] == 'handle' else a[1][1] if a[0] == 'ptr' and a[1][0] == 'ret' else None
                if k2 in freed and not isfree(f): return f'the released result of {res[k2][0]} is passed to {f} (line {e[4]})'
        elif e[0] == 'read':
            k2 = e[1][2] if e[1][0] == 'ptr' and e[1][1] == 'ret' else None
            if k2 in freed: return f'the result of {res[k2][0]} is read after it was released'
    for k, (al, kind, rf, ln) in res.items():
        if freed.get(k): continue
        if ('ret', k) in null: continue
        pos, ev = out[k]
        if al.endswith('from_bytes'):
            err = atom('out', k, 2)
            if it.implied(add(1, err, -1)): continue        # no object on an error
        return f'the result of {al} is never released' + (f' when {p.val.cls.name} is raised' if p.kind == 'raise' else '') if not nullpath(p) else '?null'
    return True

# ------------------------------------------------------------------ C40 declarations
def o_decl(ck, W):
    ck.section('Python declarations', REL, lambda: decl(ck, W))

def pshape(t):
    if t is None: return ('void',)
    if isinstance(t, CT): return SIMPLE[t.name]
    if isinstance(t, PtrT): return ('ptr', pshape(t.t))
    if isinstance(t, ClassV) and t.sub('Structure'): return ('struct', t)
    raise Unsupported('type ' + repr(t))

def decl(ck, W):
    ps = explore(lambda it: it)
    if ps[0].kind == 'raise': raise Unsupported('the module raises')
    it = ps[0].it
    items = {i['path'].split('::')[-1]: i for i in W.capi.items if i.get('nomangle')}
    types = W.capi.types
    done = {}
    def agree(r, q, boolish=False):
        """None or a text"""
        if r[0] == 'ptr' and q[0] == 'ptr':
            if q[1] == ('void',) or r[1] == ('void',): return None
            if q[1] == ('char',): return None if r[1] in (('int', 8, True), ('int', 8, False)) else 'pointee'
            return agree(r[1], q[1])
        if r[0] == 'struct' and q[0] == 'struct': return struct(r[1], q[1])
        if r[0] == 'bool' or q[0] == 'bool' or boolish:
            if r[0] in ('bool', 'int') and q[0] in ('bool', 'int') and (r[0] == 'bool' or r[1] == 8) and (q[0] == 'bool' or q[1] == 8): return None
            return f'{q} for {r}'
        return None if r == q else f'{" ".join(map(str, q))} for {" ".join(map(str, r))}'
    def struct(rn, c):
        key = (rn, c.name)
        if key in done: return done[key]
        done[key] = None
        ts = [t for k, t in types.items() if k.split('::')[-1] == rn and t.get('kind') == 'struct']
        if not ts: raise Unsupported('no definition of ' + rn)
        rf = ts[0]['variants'][0]['fields']; pf = it.fields(c)
        r = None
        if len(rf) != len(pf): r = f'{c.name} has {len(pf)} fields, {rn} has {len(rf)}'
        else:
            for (a, ta, *_), f in zip(rf, pf):
                if len(f) > 2: r = f'bit field {f[0]}'; break
                d = agree(abi.rty(ta), pshape(f[1]))
                if d: r = f'field {c.name}.{f[0]}: {d}'; break
                if f[0] != a and f[0] in [x[0] for x in rf]: r = f'field {c.name}.{f[0]} is at the place of {rn}.{a}'; break
            if '_pack_' in c.attrs: r = r or f'{c.name} is packed'
        done[key] = r
        return r
    used = set()
    for nm, f in sorted(it.libfns.items() if hasattr(it, 'libfns') else []):
        used.add(nm)
        def one():
            i = items.get(nm)
            if i is None: ck.viol('declared function', f'{REL}: {nm}', 'the library exports no such function'); return
            rp, rr = abi.rust_sig(i['sig'])
            at = f.attrs.get('argtypes')
            if at is None:
                if all(abi.rty(t)[0] == 'struct' for t in rp): ck.ok('arguments', nm, f'{len(rp)} by value')
                else: ck.viol('argument types', f'{REL}: {nm}', 'no argument types are declared: integers are passed as 32-bit int')
            else:
                at = it.items(at)
                if len(at) != len(rp): ck.viol('argument types', f'{REL}: {nm}', f'{len(at)} declared, {len(rp)} defined')
                else:
                    for k, (a, b) in enumerate(zip(rp, at)):
                        d = agree(abi.rty(a), pshape(b))
                        if d: ck.viol('argument type', f'{REL}: {nm} argument {k}', d)
                        else: ck.ok('argument type', f'{nm} #{k}', a)
            rt = f.attrs.get('restype', 0)
            r = abi.rty(rr)
            if rt == 0:
                if r == ('void',): ck.ok('result type', nm, 'none')
                else: ck.viol('result type', f'{REL}: {nm}', f'not declared: read as a 32-bit int instead of {rr}')
            else:
                if isinstance(rt, (Y.FuncV, Y.Builtin)): raise Unsupported('restype')
                boolish = capi.FN.get(nm, ('', ''))[1] == 'bool'
                if r == ('void',) and rt is not None: d = None
                else: d = agree(r, pshape(rt), boolish)
                if d: ck.viol('result type', f'{REL}: {nm}', d)
                else: ck.ok('result type', nm, rr)
        ck.section('declaration', nm, one)
    # functions used by a method without any declaration
    names = set()
    for n in ast.walk(tree()):
        if isinstance(n, ast.Attribute) and (n.attr in capi.FN or n.attr in capi.FREE or n.attr.startswith(('gphrx_', 'free_gphrx'))): names.add(n.attr)
    for nm in sorted(names - used):
        i = items.get(nm)
        if i is None: ck.viol('declared function', f'{REL}: {nm}', 'the library exports no such function'); continue
        rp, rr = abi.rust_sig(i['sig'])
        if abi.rty(rr) != ('void',) or any(abi.rty(t)[0] != 'struct' for t in rp): ck.viol('declaration', f'{REL}: {nm}', 'called without declared types')
    need = {s[1] for ms in SPEC.values() for s in ms.values()} | set(FROM.values()) | {'gphrx_compress', 'gphrx_add_vertex', 'gphrx_new_directed', 'gphrx_new_undirected'}
    for nm in sorted(need):
        if nm not in used and nm not in names and nm not in ('gphrx_matrix_to_string',): ck.unk('declaration', nm, 'not declared by attribute')
