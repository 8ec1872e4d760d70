"""Difference witnesses.

When the comparison of two value graphs ends undecided, a model of the unknowns is searched in which
the two graphs denote different values while the guard holds.  The graphs are the closed forms
extracted from the source (and the specification); finding a model only ever turns 'undecided' into
'different', it never establishes that something holds."""
import os, random, re, struct, zlib
from vals import *
from mat import *
import vals, terms as tm
import cmp as C

class Skip(Exception): pass

class Mat:
    """a sparse matrix; `extra` further entries lie at coordinates nothing asks about"""
    __slots__ = ('dim', 'd', 'key', 'lst', 'extra')
    def __init__(self, dim, d, extra=0): self.dim, self.d, self.lst, self.extra = dim, d, None, extra
    def items(self):
        if self.extra: raise Skip('count')
        if self.lst is None: self.lst = sorted(self.d)
        return self.lst
    def __eq__(self, o): return isinstance(o, Mat) and self.dim == o.dim and self.d == o.d and self.extra == o.extra
    def __repr__(self): return f'matrix(dimension {self.dim}, {dict(list(self.d.items())[:6])}' + (f' and {self.extra} more entries)' if self.extra else ')')

class Chunk:
    """a stretch of a sequence too long to enumerate"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Chunk) and self.t is o.t
    def __repr__(self): return '...'

class Tab:
    """a hash table or set; values of an unknown table are chosen when first read"""
    __slots__ = ('d', 'lst')
    def __init__(self, d): self.d, self.lst = d, None
    def keys(self):
        if self.lst is None: self.lst = sorted(self.d)
        return self.lst
    def __eq__(self, o): return isinstance(o, Tab) and self.d == o.d
    def __repr__(self): return f'table({self.d})'
class Lazy:
    __slots__ = ('v',)
    def __init__(self): self.v = None
    def __eq__(self, o): return self is o or isinstance(o, Lazy) and self.v is not None and self.v == o.v
    def __repr__(self): return repr(self.v)

_fv = {}
NOFV = frozenset()
def fvs(x):
    """free loop variables and accumulators of a term, guard or atom"""
    r = _fv.get(x)
    if r is not None: return r
    todo = [x]
    while todo:
        t = todo[-1]
        if t in _fv: todo.pop(); continue
        if isinstance(t, B):
            kids = () if t.a is None else (t.a, t.h, t.l)
        else:
            kids = []
            for y in t.args:
                if isinstance(y, (T, B)): kids.append(y)
                elif isinstance(y, tuple): kids += [z for w in y for z in (w if isinstance(w, tuple) else (w,)) if isinstance(z, (T, B))]
                elif hasattr(y, 'args') and hasattr(y, 'op'): kids.append(y)
        miss = [k for k in kids if k not in _fv]
        if miss: todo += miss; continue
        todo.pop()
        if isinstance(t, T) and t.op == 'sym':
            _fv[t] = frozenset((t,)) if t.args[0].startswith(('k#', 'acc#')) else NOFV
        else:
            r = frozenset().union(*[_fv[k] for k in kids]) if kids else NOFV
            if isinstance(t, T) and t.op == 'lam': r = r - frozenset(y for y in t.args[2:] if isinstance(y, T))
            _fv[t] = r
    return _fv[x]
def isclosed(x): return not fvs(x)

ROUNDS = 1500

class Model:
    def __init__(self, rng, consts, bytesgen=None, matgen=None):
        self.rng, self.consts, self.bytesgen = rng, consts, bytesgen
        rng.consts = consts
        self.val = {}            # closed term / guard -> value
        self.lv = {}             # unknown -> value (also unknown predicates, by atom)
        self.hot = []
        self.used = []
    # ---- choosing values of unknowns
    def pick(self, lo, hi):
        rng = self.rng
        for _ in range(12):
            q = rng.random()
            if q < .35 and self.hot: v = rng.choice(self.hot)
            elif q < .62: v = rng.randrange(0, 20)
            elif q < .78 and self.consts: v = rng.choice(self.consts) + rng.choice((-1, 0, 0, 1))
            elif q < .86 and hi is not None: v = hi - rng.choice((0, 0, 1, 2, 7, 8))
            elif q < .93: v = rng.getrandbits(rng.choice((8, 16, 32, 64)))
            else: v = (1 << rng.randrange(64)) + rng.choice((-1, 0))
            if (lo is None or v >= lo) and (hi is None or v <= hi): break
        else:
            v = lo if lo is not None else 0
            if hi is not None and lo is not None and hi - lo < 4096: v = rng.randrange(lo, hi + 1)
        self.hot.append(v)
        return v
    def mat(self, M):
        rng = self.rng
        bound = DIMB.get(M, U64)
        dim = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24)) if rng.random() < .88 else rng.choice((bound, bound - 1, 1 << 32, 1 << 20, rng.getrandbits(rng.randrange(6, 50))))
        dim = min(dim, bound)
        d = {}
        if dim:
            q = rng.random()
            dense = q < .15 and dim <= 9 or q < .06 and dim <= 17
            full = dense and rng.random() < .5
            n = rng.choice((0, 1, 1, 2, 3, 5)) if not dense else dim * dim
            base = [rng.randrange(dim) for _ in range(2)] + [0, dim - 1] if dim < 1 << 40 else [dim - 1, dim - 2, 0, 3]
            if dense: cells = [(c, r) for c in range(dim) for r in range(dim) if full or rng.random() < .9]
            else:
                cells = [(rng.choice(base) if rng.random() < .5 else rng.randrange(min(dim, 24)), rng.choice(base) if rng.random() < .5 else rng.randrange(min(dim, 24))) for _ in range(n)]
                if rng.random() < .4: cells += [(r, c) for c, r in cells]
            for c in cells:
                q = rng.random()
                d[c] = 1 << rng.randrange(64) if q < .4 else U64 if q < .5 else rng.getrandbits(64) or 1 if q < .8 else rng.randrange(1, 256)
        if 8 < dim <= 40 and rng.random() < .12:
            # one or two full blocks of eight by eight
            for _ in range(rng.choice((1, 1, 2))):
                bc, br = rng.randrange(-(-dim // 8)), rng.randrange(-(-dim // 8)); mir = rng.random() < .5
                for c in range(8 * bc, min(dim, 8 * bc + 8)):
                    for r in range(8 * br, min(dim, 8 * br + 8)):
                        d[(c, r)] = 1
                        if mir: d[(r, c)] = 1
        if rng.random() < .03:
            # as many entries as a constant of the code: one column, one row or a square
            big = [c for c in self.consts if 40 <= c <= 1200]
            if big and bound > 3000:
                n = rng.choice(big) + rng.choice((0, 1, 2)); q = rng.random()
                w = next(x for x in range(40) if x * x >= n)
                d = {(0, i) if q < .3 else (i, 0) if q < .6 else (i % w, i // w): 1 for i in range(n)}
                dim = max(dim if dim < 1 << 20 else 0, n)
        for c, r in d:
            self.hot += [c, r]
            if dim < 1 << 32:
                for b in range(64):
                    if d[(c, r)] >> b & 1: self.hot += [8 * c + b % 8, 8 * r + b // 8]; break
        self.hot.append(dim)
        ext = rng.choice((0, 1000, 70000, 1 << 20)) if dim >= 1 << 20 and rng.random() < .3 else 0
        return Mat(dim, d, ext)
    def symmetrise(self, unds):
        """an undirected graph stores every edge in both directions"""
        if not unds or not any(self.A(u, {}) for u in unds): return
        for t, v in list(self.lv.items()):
            if not (isinstance(t, T) and isinstance(v, Mat) and 'adjacency_matrix' in show(t)[:60]): continue
            d = dict(v.d)
            grow = self.rng.random() < .5
            for c, r in v.d:
                if (r, c) not in d:
                    if grow: d[(r, c)] = 1
                    else: d.pop((c, r))
            if len(d) != len(v.d) or d.keys() != v.d.keys(): self.lv[t] = Mat(v.dim, d, v.extra); self.flush()
    def leaf(self, t):
        so = sort_of(t)
        if so == 'mat': return self.mat(t)
        if so == 'float':
            return self.rng.choice((0.0, 0.5, 1.0, 1e-18, 1e-19, -1.0, 2.0, 0.25, 1/64, 2/64, 1/9, 0.1, 7.5))
        if so == 'seq':
            if self.bytesgen: return self.bytesgen(self.rng)
            return [self.pick(0, U64) if self.rng.random() < .7 else self.rng.randrange(0, 6) for _ in range(self.rng.choice((0, 1, 2, 2, 3, 5)))]
        if so == 'int':
            lo, hi = symrange_of(t)
            v = self.pick(lo, hi)
            return v
        if so == 'obj': return ('tok', t.id)
        if so == 'map': return self.tab()
        raise Skip('sort ' + str(so))
    def tab(self):
        rng = self.rng
        n = rng.choice((0, 1, 1, 2, 2, 3))
        ks = set()
        if rng.random() < .04:
            big = [c for c in self.consts if 40 <= c <= 70000]
            if big:
                one = Lazy()
                return Tab({k: one for k in range(rng.choice(big) + rng.choice((-1, 0, 1)))})
        for _ in range(n):
            ks.add(self.pick(0, U64 - 1) if rng.random() < .6 else rng.randrange(0, 6))
        self.hot += ks
        return Tab({k: Lazy() for k in ks})
    def tabval(self, m, k, lo, hi, so):
        if k not in m.d: raise Skip('absent key')
        v = m.d[k]
        if isinstance(v, Lazy):
            if v.v is None:
                v.v = self.tab() if so == 'map' else self.rng.choice((0.5, 1.0, 2.0, -1.5, 7.25, 0.1)) if so == 'float' else self.pick(lo, hi) if so == 'int' else None
                if v.v is None: raise Skip('table value ' + str(so))
            return v.v
        return v
    def unknown(self, t):
        r = self.lv.get(t)
        if r is None: r = self.lv[t] = self.leaf(t)
        return r
    # ---- steering: make a term take a value, an atom a truth value, by changing unknowns
    def flush(self): self.val.clear()
    def setval(self, t, v, depth=0):
        if depth > 12: return False
        o = t.op; rng = self.rng
        if o == 'int': return t.args[0] == v
        if o == 'sym' and t.args[0].startswith(('k#', 'acc#', 'mu!')): return False
        so = sort_of(t)
        if o == 'sym' or o == 'app' and len(t.args) == 1 and t.args[0] not in ('matnew', 'mnew'):
            if so == 'int':
                lo, hi = symrange_of(t)
                if not isinstance(v, int) or lo is not None and v < lo or hi is not None and v > hi: return False
            elif so != 'float': return False
            self.lv[t] = v; self.hot.append(v); self.flush(); return True
        if o == 'rv': return self.setval(t.args[0], v, depth + 1)
        if so != 'int' or not isinstance(v, int) or v < 0: return False
        if o == 'ite': return self.setval(t.args[1 if self.B(t.args[0], {}) else 2], v, depth + 1)
        if o == 'lin':
            xs = list(t.args[1]); rng.shuffle(xs)
            cur = self.T(t, {})
            for x, q in xs:
                d = v - cur
                if d % q: continue
                if self.setval(x, self.T(x, {}) + d // q, depth + 1): return True
            return False
        if o == 'mul':
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                k = num(self.T(y, {}))
                if k and v % k == 0 and self.setval(x, v // k, depth + 1): return True
            return False
        if o == 'div':
            k = num(self.T(t.args[1], {}))
            return bool(k) and self.setval(t.args[0], v * k + rng.choice((0, k - 1, rng.randrange(k))), depth + 1)
        if o == 'mod':
            k = num(self.T(t.args[1], {}))
            if not 0 <= v < k: return False
            x = num(self.T(t.args[0], {}))
            return self.setval(t.args[0], rng.choice((x - x % k + v, k + v, v)), depth + 1)
        if o == 'wrap':
            w = 1 << t.args[1]
            x = num(self.T(t.args[0], {}))
            ch = [v, v + w, x - x % w + v, v - w]; rng.shuffle(ch)
            return v < w and any(self.setval(t.args[0], c, depth + 1) for c in ch)
        if o == 'shr':
            k = num(self.T(t.args[1], {}))
            return k < 256 and self.setval(t.args[0], v << k, depth + 1)
        if o == 'app':
            A = t.args; n = A[0]
            if n == 'mdim':
                M = self.basemat(A[1])
                if M is None or v > DIMB.get(M, U64): return False
                m = self.lv[M]
                self.lv[M] = Mat(v, {k: x for k, x in m.d.items() if max(k) < v}, m.extra if v * v >= 4 * m.extra else 0); self.hot.append(v); self.flush(); return True
            if n == 'mcount':
                M = self.basemat(A[1])
                if M is None: return False
                m = self.lv[M]
                if v > 300:
                    dim = m.dim if m.dim * m.dim >= 4 * v else min(DIMB.get(M, U64), 4 * v)
                    if v > 1 << 40 or dim * dim < 2 * v: return False
                    self.lv[M] = Mat(dim, dict(m.d), v - len(m.d)); self.flush(); return True
                if m.dim * m.dim < v: return False
                d = dict(m.d)
                while len(d) > v: d.pop(rng.choice(sorted(d)))
                for _ in range(1000):
                    if len(d) >= v: break
                    d.setdefault((rng.randrange(min(m.dim, 40)), rng.randrange(min(m.dim, 40))), 1)
                self.lv[M] = Mat(m.dim, d); self.flush(); return len(d) == v
            if n == 'mget':
                M = self.basemat(A[1])
                if M is None: return False
                c, r = num(self.T(A[2], {})), num(self.T(A[3], {}))
                return self.put(M, (c, r), v)
            if n in ('ecol', 'erow'):
                M = self.basemat(A[1]); k = num(self.T(A[2], {}))
                if M is None or v >= DIMB.get(M, U64): return False
                m = self.lv[M]
                if not 0 <= k < len(m.d) or m.extra: return False
                c, r = m.items()[k]
                d = dict(m.d); x = d.pop((c, r)); d[(v, r) if n == 'ecol' else (c, v)] = x
                self.lv[M] = Mat(max(m.dim, v + 1), d); self.hot.append(v); self.flush(); return True
            if n == 'mlen':
                m = self.T(A[1], {})
                if v > 200 or not isinstance(m, Tab): return False
                for _ in range(2000):
                    if len(m.d) == v: break
                    if len(m.d) > v: m.d.pop(rng.choice(sorted(m.d)))
                    else: m.d.setdefault(rng.choice(self.hot + [0]) if rng.random() < .2 else rng.randrange(0, 2 * v + 2), Lazy())
                m.lst = None; self.flush(); return len(m.d) == v
            if n == 'mkey':
                m = self.T(A[1], {}); k = num(self.T(A[2], {}))
                if not isinstance(m, Tab) or v in m.d or v > U64 - 1: return False
                if k >= len(m.d): m.d[v] = Lazy()
                else: m.d[v] = m.d.pop(m.keys()[k])
                m.lst = None; self.flush(); return True
            if n == 'len':
                s = self.T(A[1], {})
                if not isinstance(s, list) or v > 4096: return False
                if len(s) > v: del s[v:]
                elif v - len(s) > 16 and not self.bytesgen and rng.random() < .7:
                    s += range(len(s), v); self.hot += [v - 1] * 8
                else: s += [rng.choice((0, 1, rng.randrange(256))) for _ in range(v - len(s))]
                self.flush(); return True
            if n == 'at':
                s = self.T(A[1], {}); i = num(self.T(A[2], {}))
                lo, hi = interval(t)
                if not isinstance(s, list) or i >= len(s) or hi is not None and v > hi: return False
                s[i] = v; self.flush(); return True
            if n == 'beint':
                s = self.T(A[2], {}); i = num(self.T(A[3], {})); w = A[1]
                if not isinstance(s, list) or i + w > len(s) or v >> 8 * w: return False
                s[i:i + w] = list(v.to_bytes(w, 'big' if A[4] == 'be' else 'little')); self.flush(); return True
            if n in ('popcount',): return v <= 64 and self.setval(A[1], (1 << v) - 1, depth + 1)
        return False
    def basemat(self, M):
        for _ in range(40):
            if M.op == 'ite': M = M.args[1 if self.B(M.args[0], {}) else 2]
            elif M.op == 'app' and M.args[0] in ('msetg', 'mzerog', 'minc', 'mmind', 'mmul'): M = M.args[1]
            else: break
        v = self.T(M, {})
        return M if M in self.lv and isinstance(v, Mat) else None
    def put(self, M, k, v):
        m = self.lv[M]; d = dict(m.d)
        if v: d[k] = v
        else: d.pop(k, None)
        if v and max(k) >= m.dim:
            if max(k) >= DIMB.get(M, U64): return False
            m = Mat(max(k) + 1, {}, m.extra)
        self.lv[M] = Mat(m.dim, d, m.extra); self.flush(); return True
    def setatom(self, a, want):
        rng = self.rng; o = a.op
        if o in ('le', 'eq'):
            cur = sum(q * num(self.T(t, {})) for t, q in a.args[0]); c = a.args[1]
            if o == 'le': to = c - rng.choice((0, 0, 0, 1, rng.randrange(8))) if want else c + rng.choice((1, 1, 1, 2, rng.randrange(1, 9)))
            else: to = c if want else c + rng.choice((-1, 1, 2))
            xs = list(a.args[0]); rng.shuffle(xs)
            for x, q in xs:
                d = to - cur
                if d % q: d += (q - d % q) if o == 'le' and (not want) == (q > 0) else -(d % q)
                v = num(self.T(x, {})) + d // q
                if v < 0:
                    if o != 'le' or (q > 0) != want or not want and q > 0: continue
                    v = 0
                if self.setval(x, v): return True
            return False
        if o in ('fle', 'flt', 'feq'):
            x, y = self.T(a.args[0], {}), self.T(a.args[1], {})
            for t, v in ((a.args[0], y), (a.args[1], x)):
                e = rng.choice((0., 0., 1e-3, .5, 1.))
                for w in (v - e, v + e):
                    if sort_of(t) == 'float' and self.setval(t, float(w)) and self.A(a, {}) == want: return True
            return False
        if o == 'bit':
            x, i = num(self.T(a.args[0], {})), num(self.T(a.args[1], {}))
            return i < 64 and self.setval(a.args[0], x | 1 << i if want else x & ~(1 << i))
        if o == 'p':
            n = a.args[0]
            if a in self.lv: self.lv[a] = want; self.flush(); return True
            if n == 'min':
                M = self.basemat(a.args[1])
                return M is not None and self.put(M, (num(self.T(a.args[2], {})), num(self.T(a.args[3], {}))), 1 if want else 0)
            if n == 'mhas':
                m = self.T(a.args[1], {}); k = num(self.T(a.args[2], {}))
                if not isinstance(m, Tab) or k > U64 - 1: return False
                if want: m.d.setdefault(k, Lazy())
                else: m.d.pop(k, None)
                m.lst = None; self.flush(); return True
        return False
    def force(self, lits, rounds=40):
        """change unknowns until the literals hold"""
        for _ in range(rounds):
            bad = [l for l in lits if self.truth_of(l[0]) not in (l[1], None)]
            if not bad: return True
            try: self.setatom(*self.rng.choice(bad))
            except Skip: pass
            self.flush()
        return False
    def align(self, reads):
        """let a query hit a stored entry"""
        M, c, r = self.rng.choice(reads)
        try:
            it = self.T(M, {}).items()
            if not it: return
            x, y = self.rng.choice(it)
            self.setval(c, x); self.setval(r, y)
        except Skip: pass
        self.flush()
    def truth_of(self, a):
        try: return self.A(a, {})
        except Skip: return None
    # ---- evaluation
    def T(self, t, env):
        o = t.op
        if o == 'int': return t.args[0]
        if t in env: return env[t]
        cl = isclosed(t)
        memo = self.val if cl else env
        r = memo.get(t)
        if r is None:
            r = self.T1(t, env)
            memo[t] = r
        return r
    def B(self, b, env):
        while b.a is not None:
            b = b.h if self.A(b.a, env) else b.l
        return b is TRUE
    def A(self, a, env):
        memo = self.val if isclosed_atom(a) else env
        k = ('a', a)
        r = memo.get(k)
        if r is None:
            r = memo[k] = self.A1(a, env)
        return r
    def A1(self, a, env):
        o = a.op
        ev = self.T
        if o == 'le': return sum(q * num(ev(t, env)) for t, q in a.args[0]) <= a.args[1]
        if o == 'eq': return sum(q * num(ev(t, env)) for t, q in a.args[0]) == a.args[1]
        if o in ('fle', 'flt', 'feq'):
            x, y = ev(a.args[0], env), ev(a.args[1], env)
            return x <= y if o == 'fle' else x < y if o == 'flt' else x == y
        if o == 'bit': return bool(num(ev(a.args[0], env)) >> num(ev(a.args[1], env)) & 1)
        if o == 'oeq':
            x, y = ev(a.args[0], env), ev(a.args[1], env)
            if isinstance(x, tuple) and x and x[0] == 'tok' or isinstance(y, tuple) and y and y[0] == 'tok': raise Skip('object equality')
            return x == y
        if o == 'p':
            n = a.args[0]
            if n == 'exists' and a.args[1].op == 'app' and a.args[1].args[0] == 'forever':
                for i in range(ROUNDS):
                    if truth(self.lam(a.args[2], env, i)): return True
                raise Skip('count')
            if n == 'exists':
                k = self.count(a.args[1], env)
                return any(truth(self.lam(a.args[2], env, i)) for i in range(k))
            if n == 'min':
                M = ev(a.args[1], env)
                return (ev(a.args[2], env), ev(a.args[3], env)) in M.d
            if n == 'mhas': return keyof(ev(a.args[2], env)) in ev(a.args[1], env).d
            if n == 'allocfail':
                r = self.lv.get(a)
                if r is None: r = self.lv[a] = self.rng.random() < .2
                return r
            if n in ('undq', 'given', 'isv1') or '.' in n or '()' in n or len(a.args) == 1 and re.fullmatch(r'\w+\d', n):
                r = self.lv.get(a)
                if r is None: r = self.lv[a] = self.rng.random() < .5
                return r
            if n in ('meets', 'inrow'): return zlib.crc32(repr((self.seedv(), ev(a.args[1], env))).encode()) % 3 != 0
            raise Skip('predicate ' + n)
        raise Skip('atom ' + o)
    def seedv(self):
        v = self.lv.get('seed')
        if v is None: v = self.lv['seed'] = self.rng.random()
        return v
    def lam(self, l, env, k, *accs):
        e = {x: y for x, y in env.items() if isinstance(x, T) and x.op == 'sym'}
        e[l.args[2]] = k
        for a, x in zip(l.args[3:], accs): e[a] = x
        b = l.args[1]
        return self.T(b, e) if isinstance(b, T) else self.B(b, e)
    def count(self, t, env, top=ROUNDS):
        k = num(self.T(t, env))
        if k > top: raise Skip("count" + (" of " + show(t)[:200] if os.environ.get("VERIF_DEBUG") else ""))
        return k
    def T1(self, t, env):
        o = t.op
        ev = lambda x: self.T(x, env)
        if o == 'sym':
            if t.args[0].startswith(('k#', 'acc#', 'mu!')): raise Skip('unbound')
            return self.unknown(t)
        if o == 'lin': return t.args[0] + sum(q * num(ev(x)) for x, q in t.args[1])
        if o == 'mul': return num(ev(t.args[0])) * num(ev(t.args[1]))
        if o in ('div', 'mod'):
            a, b = num(ev(t.args[0])), num(ev(t.args[1]))
            if b == 0 or a < 0 or b < 0: raise Skip('division')
            return a // b if o == 'div' else a % b
        if o == 'ite': return ev(t.args[1]) if self.B(t.args[0], env) else ev(t.args[2])
        if o == 'g': return self.B(t.args[0], env)
        if o == 'rv': return ev(t.args[0])
        if o in ('tup',): return ('tup',) + tuple(ev(x) for x in t.args)
        if o == 'arr': return [ev(x) for x in t.args]
        if o == 'box': return ('box',) + tuple(ev(x) for x in t.args if isinstance(x, T))
        if o == 'en':
            for a in t.args:
                if self.B(a.args[1], env):
                    return ('en', a.args[0]) + tuple(self.T(x, env) for x in a.args[2:])
            raise Skip('no variant')
        if o == 'fconst': return tm.fval(t)
        if o == 'f': return self.F(t, ev)
        if o == 'str': return [ord(c) for c in t.args[0]]
        if o == 'cat':
            r = []
            for x in t.args: r = r + list(ev(x))
            return r
        if o == 'bor':
            r = 0
            for x in t.args: r |= num(ev(x))
            return r
        if o == 'bxor':
            r = 0
            for x in t.args: r ^= num(ev(x))
            return r
        if o == 'band': return num(ev(t.args[0])) & num(ev(t.args[1]))
        if o == 'wrap': return num(ev(t.args[0])) % (1 << t.args[1])
        if o == 'shl':
            s = num(ev(t.args[1]))
            if s >= 256: raise Skip('shift')
            return (num(ev(t.args[0])) << s) % (1 << t.args[2])
        if o == 'shr':
            return num(ev(t.args[0])) >> num(ev(t.args[1]))
        if o == 'app': return self.app(t, env, ev)
        raise Skip('term ' + o)
    def F(self, t, ev):
        v = [ev(a) for a in t.args[1:]]
        f = t.args[0]
        if f == 'i2f': return float(num(v[0]))
        if f == 'i2f32': return tm.single(float(num(v[0])))
        v = [float(x) for x in v]
        if f == 'add': return v[0] + v[1]
        if f == 'sub': return v[0] - v[1]
        if f == 'mul': return v[0] * v[1]
        if f == 'neg': return -v[0]
        if f == 'tof32': return tm.single(v[0])
        if f == 'div' and v[1] != 0: return v[0] / v[1]
        if f == 'abs': return abs(v[0])
        raise Skip('float ' + f)
    def app(self, t, env, ev):
        n = t.args[0]; A = t.args
        if n == 'fold':
            k = self.count(A[1], env); acc = ev(A[2])
            for i in range(k): acc = self.lam(A[3], env, i, acc)
            return acc
        if n == 'foldn':
            idx = A[1].args[0]; k = self.count(A[2], env)
            acc = list(ev(A[3])[1:])
            for i in range(k):
                r = self.lam(A[4], env, i, *acc)
                acc = list(r[1:])
            return acc[idx]
        if n == 'sum': return sum(num(self.lam(A[2], env, i)) for i in range(self.count(A[1], env, 140000)))
        if n == 'first' and A[1].op == 'app' and A[1].args[0] == 'forever':
            for i in range(ROUNDS):
                if truth(self.lam(A[2], env, i)): return i
            raise Skip('count')
        if n == 'first':
            k = self.count(A[1], env)
            for i in range(k):
                if truth(self.lam(A[2], env, i)): return i
            return k
        if n == 'comp':
            r = []
            if num(ev(A[1])) > ROUNDS and isclosed(t): return [Chunk(t)]
            for i in range(self.count(A[1], env)): r = r + list(self.lam(A[2], env, i))
            return r
        if n == 'mnew': return Tab({})
        if n == 'mlen': return len(ev(A[1]).d)
        if n == 'mins':
            m = ev(A[1]); d = dict(m.d); d[keyof(ev(A[2]))] = ev(A[3])
            return Tab(d)
        if n == 'mrem':
            m = ev(A[1]); d = dict(m.d); d.pop(keyof(ev(A[2])), None)
            return Tab(d)
        if n == 'mkey':
            m = ev(A[1]); k = num(ev(A[2]))
            if not 0 <= k < len(m.d): raise Skip('entry index')
            return m.keys()[k]
        if n[0] == '.' and n[1:].isdigit():
            v = ev(A[1])
            if not (isinstance(v, tuple) and v[0] == 'tup' and len(v) > 1 + int(n[1:])): raise Skip('app ' + n)
            return v[1 + int(n[1:])]
        if n == 'mval':
            lo, hi = interval(t) if sort_of(t) == 'int' else (None, None)
            return self.tabval(ev(A[1]), keyof(ev(A[2])), lo, hi, sort_of(t))
        if n == 'mapvals':
            m = ev(A[1]); acc = A[2].args[3]
            lo, hi = symrange_of(acc) if sort_of(acc) == 'int' else (None, None)
            return Tab({k: self.lam(A[2], env, 0, self.tabval(m, k, lo, hi, sort_of(acc))) for k in m.keys()})
        if n == 'matnew': return Mat(0, {})
        if n == 'mdim': return ev(A[1]).dim
        if n == 'mcount': M = ev(A[1]); return len(M.d) + M.extra
        if n == 'msetg':
            M = ev(A[1])
            if not self.B(A[2].args[0], env): return M
            v, c, r = ev(A[3]), num(ev(A[4])), num(ev(A[5]))
            if c >= U64 or r >= U64: return M
            d = dict(M.d)
            if v == 0: d.pop((c, r), None)
            else: d[(c, r)] = v if A[6] != 'adj' else 1
            return Mat(max(M.dim, c + 1, r + 1), d, M.extra)
        if n == 'mzerog':
            M = ev(A[1])
            if not self.B(A[2].args[0], env): return M
            d = dict(M.d); d.pop((num(ev(A[3])), num(ev(A[4]))), None)
            return Mat(M.dim, d, M.extra)
        if n == 'minc':
            M = ev(A[1]); c, r = num(ev(A[2])), num(ev(A[3]))
            if c >= U64 or r >= U64: return M
            d = dict(M.d); d[(c, r)] = d.get((c, r), 0) + 1
            return Mat(max(M.dim, c + 1, r + 1), d, M.extra)
        if n == 'mmind': M = ev(A[1]); return Mat(max(M.dim, num(ev(A[2]))), M.d, M.extra)
        if n == 'mmul':
            M = ev(A[1]); x = ev(A[2])
            return Mat(M.dim, {k: v * x for k, v in M.d.items()}, M.extra)
        if n == 'mget':
            M = ev(A[1]); v = M.d.get((num(ev(A[2])), num(ev(A[3]))), 0)
            if A[4] in ('f64', 'f32'): return float(v)
            if A[4] == 'adj': return 1 if v else 0
            return v
        if n in ('ecol', 'erow'):
            M = ev(A[1]); k = num(ev(A[2]))
            if M.extra or not 0 <= k < len(M.d): raise Skip('entry index')
            return M.items()[k][0 if n == 'ecol' else 1]
        if n == 'pool':
            M = ev(A[1]); b = num(ev(A[2]))
            if M.dim == 0: return Mat(0, {})
            if M.extra: raise Skip('count')
            if b == 0: raise Skip('pool')
            d = {}
            for c, r in M.d: d[(c // b, r // b)] = d.get((c // b, r // b), 0.0) + 1.0
            f = 1.0 / (float(b) * float(b))
            return Mat(-(-M.dim // b), {k: v * f for k, v in d.items()})
        if n == 'popcount': return bin(num(ev(A[1]))).count('1')
        if n == 'trailing_zeros': v = num(ev(A[1])); return (v & -v).bit_length() - 1 if v else num(ev(A[2]))
        if n == 'leading_zeros': return num(ev(A[2])) - num(ev(A[1])).bit_length()
        if n == 'bswap': return int.from_bytes(num(ev(A[1])).to_bytes(num(ev(A[2])), 'big'), 'little')
        if n in ('sand', 'sdiv', 'srem'):
            x, y = num(ev(A[1])), num(ev(A[2]))
            if n == 'sand': return x & y
            if y == 0: raise Skip('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if n == 'sdiv' else x - q * y
        if n in ('sort', 'sort_unstable', 'reverse'):
            s = ev(A[1]); nochunk(len, s)
            # the order of edges is nobody's promise
            if any(isinstance(x, tuple) for x in s): raise Skip('order of records')
            return list(reversed(s)) if n == 'reverse' else sorted(s)
        if n == 'capacity': return len(ev(A[1])) + zlib.crc32(repr((self.seedv(), repr(ev(A[1])))).encode()) % 5
        if n == 'len': return nochunk(len, ev(A[1]))
        if n == 'at':
            s = ev(A[1]); i = num(ev(A[2]))
            if not 0 <= i < len(s): raise Skip('index')
            nochunk(len, s[:i + 1])
            if isinstance(s[i], int):
                lo, hi = interval(t)
                if sort_of(t) != 'int' or hi is not None and s[i] > hi: raise Skip('element')
            return s[i]
        if n == 'beint':
            s = ev(A[2]); i = num(ev(A[3]))
            b = s[i:i + A[1]]; nochunk(len, s[:i + A[1]])
            if len(b) < A[1]: raise Skip('index')
            return int.from_bytes(bytes(b), 'big' if A[4] == 'be' else 'little')
        if n == 'slice':
            s = ev(A[1]); i, j = num(ev(A[2])), num(ev(A[3]))
            if not 0 <= i <= j <= len(s): raise Skip('slice')
            nochunk(len, s[:j])
            return s[i:j]
        if n == 'elt': return [ev(A[1])]
        if n == 'bytes':
            b = num(ev(A[3])).to_bytes(A[1], 'big' if A[2] == 'be' else 'little')
            return list(b)
        if n == 'rept':
            k = num(ev(A[2]))
            if k > ROUNDS: raise Skip("count" + (" of " + show(t)[:200] if os.environ.get("VERIF_DEBUG") else ""))
            return [ev(A[1])] * k
        if n == 'seqite': return ev(A[2]) if self.B(A[1].args[0], env) else ev(A[3])
        if n == 'err': return ('err',)
        if n == 'colvec': M = ev(A[1]); c = num(ev(A[2])); return [r for x, r in M.items() if x == c]
        if n == 'rowvec': M = ev(A[1]); r = num(ev(A[2])); return [c for c, x in M.items() if x == r]
        if n == 'bytes_in' or len(A) == 1 and '.' in n or len(A) == 1 and n not in OPSEM: return self.unknown(t)
        raise Skip('app ' + n)

OPSEM = {'nullptr', 'undef', 'unreach', 'srem', 'repeat'}

def isclosed_atom(a): return not fvs(a)

def symrange_of(t):
    return interval(t)
def keyof(x): return x if isinstance(x, tuple) else num(x)
def num(x):
    if isinstance(x, bool): return int(x)
    if not isinstance(x, int): raise Skip('not a number')
    return x
def truth(x):
    if isinstance(x, bool): return x
    if isinstance(x, int): return x != 0
    raise Skip('not a truth value')

def nochunk(f, s):
    if any(isinstance(x, Chunk) for x in s): raise Skip('count')
    return f(s)

def same(x, y):
    if isinstance(x, float) or isinstance(y, float):
        if not isinstance(x, (float, int)) or not isinstance(y, (float, int)): return False
        if x != x and y != y: return True
        return abs(x - y) <= (1e-11 * max(abs(x), abs(y)) if x * y > 0 else 1e-15)
    if isinstance(x, Mat) and isinstance(y, Mat):
        return x.dim == y.dim and x.extra == y.extra and set(x.d) == set(y.d) and all(same(x.d[k], y.d[k]) for k in x.d)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        x, y = list(x), list(y)
        if x[:1] == ['err'] or y[:1] == ['err']: return True
        if any(isinstance(p, Chunk) for p in x + y):
            for p, q in zip(x, y):
                if isinstance(p, Chunk) or isinstance(q, Chunk):
                    if p != q: raise Skip('count')
                elif not same(p, q): return False
            if len(x) != len(y): raise Skip('count')
            return True
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, (bool, int)) and isinstance(y, (bool, int)): return int(x) == int(y)
    return x == y

def consts_of(*ts):
    out = set()
    def whole(t):
        if isinstance(t, T) and t.op == 'fconst':
            v = abs(tm.fval(t))
            if 2 <= v <= U64 and v == int(v): out.add(int(v))
    for x in ts:
        for t in subterms(x if isinstance(x, T) else G(x)):
            if isinstance(t, T): whole(t)
            if isinstance(t, B):
                for a in batoms(t):
                    if a.op in ('le', 'eq'): out.add(abs(a.args[1]))
                    for y in a.args: whole(y)
            elif t.op == 'int' and t.args[0] >= 0: out.add(t.args[0])
            elif t.op == 'lin': out.add(abs(t.args[0]))
            elif t.op == 'wrap': out.add(1 << t.args[1])
    return sorted(c for c in out if c <= U64 + 1)[:200]

def base_mats(*ts):
    out = []
    for x in ts:
        for t in subterms(x if isinstance(x, T) else G(x)):
            if isinstance(t, T) and t.op in ('app', 'sym') and sort_of(t) == 'mat' and (t.op == 'sym' and not t.args[0].startswith('acc#') or t.op == 'app' and len(t.args) == 1 and t.args[0] != 'matnew'):
                if t not in out: out.append(t)
    return out

class Stats: hits = same = 0; skips = {}

def path(b, rng):
    """literals of one way to make the guard true"""
    out = []
    while b.a is not None:
        h = b.h if b.l is FALSE else b.l if b.h is FALSE else rng.choice((b.h, b.l))
        out.append((b.a, h is b.h)); b = h
    return out

def instance(lits, rng, free=()):
    """closed literals: rounds of a loop become concrete small rounds, its accumulators are dropped"""
    env = {}
    out = []
    for a, v in lits:
        ks = [t for t in subterms(atom(a)) if isinstance(t, T) and t.op == 'sym']
        if any(t.args[0].startswith('acc') for t in ks): continue
        for t in ks:
            if t not in env and t not in free and t.args[0].startswith(('k#', 'i!')): env[t] = I(rng.choice((0, 0, 1, 2)))
        if env:
            f = tm.asubst(a, env, {})
            if not v: f = bnot(f)
            if f is FALSE or f is TRUE: continue
            out += path(f, rng)
        else: out.append((a, v))
    return [(a, v) for a, v in out if isclosed_atom(a)]

def witness(a, b, ctx, seed=1, samples=1500, gens=(), model=None, prep=None, stats=None, hint=None):
    """a description of a model of ctx in which a and b differ, or None"""
    stats = stats or Stats()
    rng = random.Random(seed)
    consts = consts_of(a, b, ctx)
    mats = base_mats(a, b, ctx)
    hits = 0
    skips = {}
    gens = list(gens) or [None]
    pool = []
    for x in (a, b, ctx):
        for t in subterms(x if isinstance(x, T) else G(x)):
            bs = [t] if isinstance(t, B) else [t.args[0]] if isinstance(t, T) and t.op in ('ite', 'g') else []
            for g in bs: pool += sorted(batoms(g), key=lambda q: q.id)
    pool = [p for p in dict.fromkeys(pool) if not any(isinstance(t, T) and t.op == 'sym' and t.args[0].startswith('acc') for t in subterms(atom(p)))]
    free = {t for x in (a, b, ctx) for t in subterms(x if isinstance(x, T) else G(x)) if isinstance(t, T) and t.op == 'sym' and t.args[0].startswith('i!')}
    reads = [t.args[1:4] for x in (a, b) for t in subterms(x if isinstance(x, T) else G(x))
             if isinstance(t, T) and (t.op == 'app' and t.args[0] == 'mget' or t.op == 'p' and t.args[0] == 'min') and isclosed(t)]
    if os.environ.get("VERIF_DEBUG"): print("   reads", [tuple(show(q)[:80] for q in r) for r in reads][:6])
    unds = [p for p in pool if p.op == 'p' and 'is_undirected' in show(p)]
    for n in range(samples):
        m = (model or Model)(rng, consts, gens[n % len(gens)])
        try:
            for M in mats: m.T(M, {})
            m.symmetrise(unds)
            if prep: prep(m)
            if n > 60 and n % 4:
                # steer the model towards the guard, the hint, or some case distinctions of the graphs
                q = n % 4; lits = []
                if q != 2 and hint is not None and hint.a is not None: lits += path(hint, rng)
                elif pool: lits += [(rng.choice(pool), rng.random() < .5) for _ in range(rng.choice((1, 1, 2, 3)))]
                if rng.random() < .5: lits += path(ctx, rng)
                m.force(instance(lits, rng, free))
                for _ in range(3):
                    if m.B(ctx, {}): break
                    if not m.force(instance(path(ctx, rng), rng, free), 20): continue
                m.symmetrise(unds)
                if prep: prep(m)
                m.flush()
                if reads and rng.random() < .4: m.align(reads)
            if not m.B(ctx, {}): continue
            hits += 1; stats.hits = hits
            x = m.B(a, {}) if isinstance(a, B) else m.T(a, {})
            y = m.B(b, {}) if isinstance(b, B) else m.T(b, {})
            if not same(x, y):
                if not valid(m): continue
                return describe(m, x, y)
            stats.same += 1
        except Skip as e:
            skips[str(e)] = skips.get(str(e), 0) + 1; stats.skips = skips
            if sum(skips.values()) >= 60 and max(skips.values()) > n * .98: break
        except (OverflowError, RecursionError): pass
    if os.environ.get('VERIF_DEBUG'): print('   [witness search]', samples, 'models,', hits, 'under the guard', skips)
    return None

def valid(m):
    """the model respects the recorded facts and ranges about the unknowns it gave values to"""
    # an undirected standard graph holds every edge in both directions
    if any(isinstance(t, tuple) and t[0] == 'a' and v is True and 'is_undirected' in show(t[1]) for t, v in m.val.items()):
        for t, v in m.val.items():
            if isinstance(v, Mat) and isinstance(t, T) and (t.op == 'sym' or t.op == 'app' and len(t.args) == 1) and 'adjacency_matrix' in show(t)[:60] and any((r, c) not in v.d for c, r in v.d): return False
    for t, v in list(m.val.items()):
        if isinstance(t, T) and t.op in ('sym', 'app') and isinstance(v, int) and not isinstance(v, bool):
            lo, hi = interval(t)
            if lo is not None and v < lo or hi is not None and v > hi: return False
            for f in tm.facts.get(t, ()):
                try:
                    if num(m.T(f, {})) > 0: return False
                except Skip: return False
    return True

def describe(m, x, y):
    us = []
    for t, v in list(m.lv.items()) + list(m.val.items()):
        if isinstance(t, T) and (t.op == 'sym' or t.op == 'app' and len(t.args) == 1 and t.args[0] not in ('matnew',)) and not isinstance(v, tuple) and t not in m.used:
            m.used.append(t); us.append(f'{show(t)[:40]} = {str(v)[:160]}')
        elif isinstance(t, tuple) and t[0] == 'a' and t[1].op == 'p' and t[1].args[0] not in ('min', 'exists', 'meets'):
            us.append(f'{show(t[1])[:40]} = {v}')
    return 'differs when ' + ', '.join(us[:14]) + f': {str(x)[:200]} instead of {str(y)[:200]}'
