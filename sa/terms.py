"""Value-graph terms, guards (BDDs over predicate atoms) and the arithmetic abstract domain.

Everything here is pure algebra on hash-consed expressions; nothing of the analysed program is
ever executed.  Ints are mathematical integers (machine wrap-around is made explicit by the
evaluator); guards are reduced ordered BDDs over canonical predicate atoms."""
import sys
from math import gcd
sys.setrecursionlimit(200000)

U64 = (1 << 64) - 1

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'args', 'id', '_iv', 'key')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_nid = [0]
def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t._iv = None; t.key = None
        _nid[0] += 1
        t.id = _nid[0]
        _tab[k] = t
    return t

def reset():
    _tab.clear(); _btab.clear(); _itecache.clear(); _lrank.clear(); symrange.clear(); symsort.clear(); facts.clear()
    _nid[0] = 0
    _atomrank.clear()

def I(n):
    return mk('int', int(n))
ZERO = None

symrange = {}
symsort = {}
facts = {}          # term -> list of (lin<=0 terms) facts valid whenever the term is mentioned

def sym(name, lo=None, hi=None, sort='int'):
    # one name stands for one range: the same name asked for with another range is another unknown
    if name in symsort and (lo is not None or sort != 'int') and (symsort[name], symrange[name]) != (sort, (lo, hi)):
        name = f'{name}:{sort if sort != "int" else f"{lo}..{hi}"}'
    t = mk('sym', name)
    if name not in symsort:
        symsort[name] = sort
        symrange[name] = (lo, hi)
    return t

def app(name, *args, lo=None, hi=None, sort=None):
    t = mk('app', name, *args)
    if t.id not in symsort:
        symsort[t.id] = sort or 'int'
        symrange[t.id] = (lo, hi)
    return t

def sort_of(t):
    o = t.op
    if o in ('int', 'lin', 'div', 'mod', 'mul', 'wrap', 'bor', 'bxor', 'band', 'shl', 'shr'):
        return 'int'
    if o == 'sym':
        return symsort[t.args[0]]
    if o == 'app':
        return symsort[t.id]
    if o == 'ite':
        return sort_of(t.args[1])
    if o in ('fconst', 'f'):
        return 'float'
    if o in ('str', 'cat', 'arr'):
        return 'seq'
    return 'obj'

# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def mklin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

def add(*ts):
    c = 0; d = {}
    for t in ts:
        c1, d1 = lin_parts(t)
        c += c1
        for a, k in d1.items():
            d[a] = d.get(a, 0) + k
    return mklin(c, d)

def scale(t, n):
    c, d = lin_parts(t)
    return mklin(c * n, {a: k * n for a, k in d.items()})

def sub(a, b):
    return add(a, scale(b, -1))

def mul(a, b):
    if a.op == 'int':
        return scale(b, a.args[0])
    if b.op == 'int':
        return scale(a, b.args[0])
    # distribute over ite of constants only when small; otherwise opaque product
    x, y = (a, b) if a.id <= b.id else (b, a)
    if a.op == 'ite' and a.args[1].op == 'int' and a.args[2].op == 'int':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite' and b.args[1].op == 'int' and b.args[2].op == 'int':
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    return mk('mul', x, y)

def interval(t):
    """sound (lo, hi) with None for unbounded"""
    if t._iv is not None:
        return t._iv
    t._iv = (None, None)
    r = _interval(t)
    t._iv = r
    return r

def guarded(c, v, x):
    """the interval of a branch, cut by a guard that is one comparison of the branch's own value"""
    l, h = interval(x)
    if x.op == 'int' or c.a is None or c.h not in (TRUE, FALSE) or c.l not in (TRUE, FALSE) or c.h is c.l or c.a.op != 'le': return l, h
    k, d = lin_parts(x)
    p = dict(c.a.args[0]); b = c.a.args[1]                  # sum p <= b
    if (c.h is TRUE) != v: p = {t: -q for t, q in p.items()}; b = -b - 1
    if p == d: h = b + k if h is None else min(h, b + k)
    elif p == {t: -q for t, q in d.items()}: l = k - b if l is None else max(l, k - b)
    return l, h

def _interval(t):
    o = t.op
    if o == 'int':
        return (t.args[0], t.args[0])
    if o == 'sym':
        return symrange.get(t.args[0], (None, None))
    if o == 'app':
        return symrange.get(t.id, (None, None))
    if o == 'lin':
        lo = hi = t.args[0]
        for a, k in t.args[1]:
            l, h = interval(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * k
            hi = None if hi is None or h is None else hi + h * k
        return lo, hi
    if o == 'ite':
        l1, h1 = guarded(t.args[0], True, t.args[1]); l2, h2 = guarded(t.args[0], False, t.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    if o == 'div':
        l, h = interval(t.args[0]); bl, bh = interval(t.args[1])
        if l is not None and l >= 0:
            if bl is not None and bl >= 1:
                return (0 if bh is None else l // bh, None if h is None else h // bl)
            return (0, h)
        return (None, None)
    if o == 'mod':
        l, h = interval(t.args[0]); bl, bh = interval(t.args[1])
        if l is not None and l >= 0:
            m = None if bh is None else bh - 1
            if h is not None and (m is None or h < m):
                m = h
            return (0, m)
        return (None, None)
    if o == 'mul':
        l1, h1 = interval(t.args[0]); l2, h2 = interval(t.args[1])
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            return (l1 * l2, None if h1 is None or h2 is None else h1 * h2)
        return (None, None)
    if o in ('bor', 'bxor'):
        m = onesmask(t)
        return (0, m)
    if o == 'band':
        return (0, onesmask(t))
    if o == 'wrap':
        return (0, (1 << t.args[1]) - 1)
    if o == 'shl':
        if t.args[0].op == 'int' and t.args[0].args[0] > 0:
            l, h = interval(t.args[1])
            if l is not None and h is not None and 0 <= l and h < t.args[2] and t.args[0].args[0] << h < 1 << t.args[2]:
                return (t.args[0].args[0] << l, t.args[0].args[0] << h)
        return (0, (1 << t.args[2]) - 1)
    if o == 'shr':
        l, h = interval(t.args[0])
        return (0, h)
    return (None, None)

_ones = {}
def onesmask(t):
    """bits that may be one (non-negative terms), or None"""
    r = _ones.get(t, 0)
    if r == 0: r = _ones[t] = (_onesmask(t),)
    return r[0]
def _onesmask(t):
    o = t.op
    if o == 'int':
        return t.args[0] if t.args[0] >= 0 else None
    if o == 'ite':
        a = onesmask(t.args[1]); b = onesmask(t.args[2])
        return None if a is None or b is None else a | b
    if o == 'lin':
        # sum of non-overlapping masks
        m = t.args[0]
        if m < 0:
            return None
        for a, k in t.args[1]:
            if k <= 0:
                m = None; break
            am = onesmask(a)
            if am is None:
                m = None; break
            am = am * k if (k & (k - 1)) == 0 else None
            if am is None or am & m:
                m = None; break
            m |= am
        if m is not None:
            return m
    if o in ('bor', 'bxor'):
        m = 0
        for a in t.args:
            x = onesmask(a)
            if x is None:
                return None
            m |= x
        return m
    if o == 'band':
        x = onesmask(t.args[0]); y = onesmask(t.args[1])
        if x is None: return y
        if y is None: return x
        return x & y
    l, h = interval(t)
    if l is not None and l >= 0 and h is not None:
        return (1 << h.bit_length()) - 1
    return None

def tdiv(a, b):
    if b.op == 'int':
        n = b.args[0]
        if n == 0: return app('divzero', a, lo=interval(a)[0], hi=interval(a)[1])     # only on impossible paths
        if n == 1:
            return a
        if a.op == 'int':
            return I(a.args[0] // n)
        l, h = interval(a)
        if l is not None and h is not None and l >= 0 and h < n:
            return I(0)
        if a.op == 'ite' and (a.args[1].op == 'int' or a.args[2].op == 'int'):
            return ite(a.args[0], tdiv(a.args[1], b), tdiv(a.args[2], b))
        if a.op == 'div' and a.args[1].op == 'int':
            return tdiv(a.args[0], I(a.args[1].args[0] * n))
        if a.op == 'lin':
            # pull out exact multiples:  (n*x + r) / n = x + r/n   (all parts non-negative)
            c, d = lin_parts(a)
            q = {}; r = {}
            for t, k in d.items():
                if k % n == 0:
                    q[t] = k // n
                else:
                    r[t] = k
            if q or c >= n:
                rest = mklin(c % n, r)
                lo, _ = interval(rest)
                if lo is not None and lo >= 0:
                    return add(mklin(c // n, q), tdiv(rest, b))
    if a is b: return I(1)                  # a zero divisor has panicked
    if b.op == 'ite':
        return ite(b.args[0], tdiv(a, b.args[1]), tdiv(a, b.args[2]))
    return mk('div', a, b)

def tmod(a, b):
    if b.op == 'int':
        n = b.args[0]
        if n == 0: return app('divzero', a, lo=interval(a)[0], hi=interval(a)[1])
        if n == 1:
            return I(0)
        if a.op == 'int':
            return I(a.args[0] % n)
        l, h = interval(a)
        if l is not None and h is not None and l >= 0 and h < n:
            return a
        if a.op == 'ite' and (a.args[1].op == 'int' or a.args[2].op == 'int'):
            return ite(a.args[0], tmod(a.args[1], b), tmod(a.args[2], b))
        if a.op == 'lin':
            c, d = lin_parts(a)
            r = {t: k % n for t, k in d.items()}
            r = {t: k for t, k in r.items() if k}
            if c % n != c or len(r) != len(d) or any(r[t] != d[t] for t in r):
                rest = mklin(c % n, r)
                lo, _ = interval(rest)
                if lo is not None and lo >= 0:
                    return tmod(rest, b)
        if n == 2:
            return ite(bit(a, I(0)), I(1), I(0))
        if a.op == 'mod' and a.args[1].op == 'int' and a.args[1].args[0] % n == 0:
            return tmod(a.args[0], b)
    if a is b: return I(0)
    if b.op == 'ite':
        return ite(b.args[0], tmod(a, b.args[1]), tmod(a, b.args[2]))
    return mk('mod', a, b)

def bit(x, i):
    """predicate: bit i of x"""
    if x.op == 'int' and i.op == 'int':
        return TRUE if (x.args[0] >> i.args[0]) & 1 else FALSE
    if x.op == 'ite':
        return bite(x.args[0], bit(x.args[1], i), bit(x.args[2], i))
    if x.op == 'div' and x.args[1].op == 'int' and _ispow2(x.args[1].args[0]):
        return bit(x.args[0], add(i, I(x.args[1].args[0].bit_length() - 1)))
    if x.op == 'shr':
        return bit(x.args[0], add(i, x.args[1]))
    if x.op == 'shl' and i.op == 'int' and x.args[1].op == 'int':
        j = i.args[0] - x.args[1].args[0]
        return FALSE if j < 0 else bit(x.args[0], I(j))
    if i.op == 'int':
        m = onesmask(x)
        if m is not None and not (m >> i.args[0]) & 1:
            return FALSE
        if x.op == 'bor':
            r = FALSE
            for a in x.args:
                r = bor_(r, bit(a, i))
            return r
        if x.op == 'lin' and onesmask(x) is not None:
            # disjoint sum
            c, d = lin_parts(x)
            if (c >> i.args[0]) & 1:
                return TRUE
            for t, k in d.items():
                if _ispow2(k):
                    s = k.bit_length() - 1
                    mm = onesmask(t)
                    if mm is not None and ((mm << s) >> i.args[0]) & 1:
                        return bit(t, I(i.args[0] - s))
            return FALSE
    return atom(mk('bit', x, i))

def _ispow2(n):
    return n > 0 and n & (n - 1) == 0

def bitand(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.args[0] & b.args[0])
    if a.op == 'int':
        a, b = b, a
    if a is b:
        return a
    if b.op == 'int':
        n = b.args[0]
        if n == 0:
            return I(0)
        if _ispow2(n):
            return ite(bit(a, I(n.bit_length() - 1)), I(n), I(0))
        if _ispow2(n + 1):
            return tmod(a, I(n + 1))
        if n == U64:
            return a
        inv = U64 ^ n
        if _ispow2(inv + 1):
            lo, hi = interval(a)
            if lo is not None and lo >= 0 and hi is not None and hi <= U64:
                return sub(a, tmod(a, I(inv + 1)))
    for x, y in ((a, b), (b, a)):
        # x & (1 << s)
        if x.op == 'shl' and x.args[0].op == 'int' and x.args[0].args[0] == 1:
            return ite(bit(y, x.args[1]), x, I(0))
        if x.op == 'ite' and x.args[1].op == 'int' and x.args[2].op == 'int':
            return ite(x.args[0], bitand(x.args[1], y), bitand(x.args[2], y))
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('band', x, y)

def bitor(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.args[0] | b.args[0])
    if a.op == 'int' and a.args[0] == 0: return b
    if b.op == 'int' and b.args[0] == 0: return a
    if a is b: return a
    ma, mb = onesmask(a), onesmask(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return add(a, b)
    xs = set()
    for t in (a, b):
        if t.op == 'bor':
            xs |= set(t.args)
        else:
            xs.add(t)
    return mk('bor', *sorted(xs, key=lambda t: t.id))

def bitxor(a, b):
    if a.op == 'int' and b.op == 'int':
        return I(a.args[0] ^ b.args[0])
    if a is b: return I(0)
    if a.op == 'int' and a.args[0] == 0: return b
    if b.op == 'int' and b.args[0] == 0: return a
    ma, mb = onesmask(a), onesmask(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return add(a, b)
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('bxor', x, y)

def wrapn(a, bits):
    lo, hi = interval(a)
    M = 1 << bits
    if lo is not None and hi is not None and lo >= 0 and hi < M:
        return a
    if a.op == 'int':
        return I(a.args[0] % M)
    if a.op == 'ite':
        return ite(a.args[0], wrapn(a.args[1], bits), wrapn(a.args[2], bits))
    c, d = lin_parts(a)
    d2 = {t: k % M for t, k in d.items()}
    r = mklin(c % M, d2)
    lo, hi = interval(r)
    if lo is not None and hi is not None and lo >= 0 and hi < M:
        return r
    if r.op == 'wrap' and r.args[1] <= bits:
        return r
    return mk('wrap', a, bits)

def tshl(a, s, bits):
    if s.op == 'int':
        return wrapn(scale(a, 1 << s.args[0]), bits)
    if s.op == 'ite' and s.args[1].op == 'int' and s.args[2].op == 'int':
        return ite(s.args[0], tshl(a, s.args[1], bits), tshl(a, s.args[2], bits))
    return mk('shl', a, s, bits)

def tshr(a, s):
    if s.op == 'int':
        return tdiv(a, I(1 << s.args[0]))
    if a.op == 'int' and a.args[0] == 0:
        return a
    return mk('shr', a, s)

def popcount(x):
    if x.op == 'int':
        return I(bin(x.args[0]).count('1'))
    if x.op == 'ite':
        return ite(x.args[0], popcount(x.args[1]), popcount(x.args[2]))
    if x.op == 'lin':
        # disjoint sum of masks
        if onesmask(x) is not None:
            c, d = lin_parts(x)
            ok = all(_ispow2(k) for k in d.values())
            m = c
            for t, k in d.items():
                mm = onesmask(t)
                if mm is None or (mm * k) & m:
                    ok = False
                    break
                m |= mm * k
            if ok:
                return add(I(bin(c).count('1')), *[popcount(t) for t in d])
    return app('popcount', x, lo=0, hi=64)

_STRUCT = ('tup', 'en', 'g', 'rv', 'iter', 'src', 'usrc', 'stage', 'box', 'arr')
def _smerge(g, a, b):
    o = a.op
    if o == 'g':
        return mk('g', bite(g, a.args[0], b.args[0]))
    if o == 'en':
        return en_merge(g, a, b)
    if len(a.args) != len(b.args):
        return None
    out = []
    for x, y in zip(a.args, b.args):
        if isinstance(x, T) and isinstance(y, T):
            out.append(ite(g, x, y))
        elif x == y:
            out.append(x)
        else:
            return None
    return mk(o, *out)

def mken(alts):
    """alts: iterable of (variant, guard, fields) with disjoint guards covering everything"""
    d = {}
    for v, g, fs in alts:
        if g is FALSE:
            continue
        if v in d:
            g0, f0 = d[v]
            gg = bor_(g0, g)
            d[v] = (gg, tuple(ite(restrict(g0, gg), x, y) for x, y in zip(f0, fs)))
        else:
            d[v] = (g, tuple(fs))
    return mk('en', *[mk('alt', v, d[v][0], *d[v][1]) for v in sorted(d)])

def en_alts(t):
    return [(a.args[0], a.args[1], a.args[2:]) for a in t.args]

def en_merge(g, a, b):
    ng = bnot(g)
    return mken([(v, band(g, h), fs) for v, h, fs in en_alts(a)] + [(v, band(ng, h), fs) for v, h, fs in en_alts(b)])

_ATOMIC_INT = frozenset(('sym', 'beint', 'app', 'div', 'mod', 'bit', 'mcount', 'mdim', 'len', 'f'))

def ite(g, a, b):
    if g is TRUE: return a
    if g is FALSE: return b
    if a is b: return a
    if a.op == b.op and a.op in _STRUCT:
        r = _smerge(g, a, b)
        if r is not None:
            return r
    # same-guard nesting
    if a.op == 'ite' and a.args[0] is g: a = a.args[1]
    if b.op == 'ite' and b.args[0] is g: b = b.args[2]
    if a is b: return a
    # what is zero exactly when the guard says so
    for z, x, gx in ((a, b, g), (b, a, None)):
        if z.op == 'int' and z.args[0] == 0 and x.op in _ATOMIC_INT:
            lo = interval(x)[0]
            if lo is not None and lo >= 0 and (gx if gx is not None else bnot(g)) is le0(x): return x
    if a.op in ('int', 'lin') or b.op in ('int', 'lin') or (sort_of(a) == 'int' and sort_of(b) == 'int'):
        ca, da = lin_parts(a); cb, db = lin_parts(b)
        common = {}
        for t, k in da.items():
            if db.get(t) == k:
                common[t] = k
        if common:
            ra = mklin(ca, {t: k for t, k in da.items() if t not in common})
            rb = mklin(cb, {t: k for t, k in db.items() if t not in common})
            return add(mklin(0, common), ite(g, ra, rb))
        if ca == cb and ca != 0 and (da or db):
            return add(I(ca), ite(g, mklin(0, da), mklin(0, db)))
        # scaled unit:  ite(g, n, 0) -> n * ite(g,1,0)
        if b.op == 'int' and a.op == 'int':
            if b.args[0] == 0 and a.args[0] not in (1,):
                return scale(ite(g, I(1), I(0)), a.args[0])
            if a.args[0] == 0 and b.args[0] != 0:
                return add(b, scale(ite(g, I(1), I(0)), -b.args[0]))
            if a.args[0] != 0 and b.args[0] != 0:
                return add(b, scale(ite(g, I(1), I(0)), a.args[0] - b.args[0]))
    sa = sort_of(a)
    if sa in sort_ite and sort_of(b) == sa:
        r = sort_ite[sa](g, a, b)
        if r is not None:
            return r
    if sa == 'seq':
        if sort_of(a) == 'seq' and sort_of(b) == 'seq':
            return seq_ite(g, a, b)
    return mk('ite', g, a, b)

# ---------------------------------------------------------------- sequences (byte / char buffers)
def cat(*ts):
    """concatenation of pieces; a piece is a term with sort seq that is not cat"""
    out = []
    for t in ts:
        if t.op == 'cat':
            out.extend(t.args)
        else:
            out.append(t)
    # merge adjacent string constants
    res = []
    for t in out:
        if t.op == 'str' and t.args[0] == '':
            continue
        if t.op == 'str' and res and res[-1].op == 'str':
            res[-1] = mk('str', res[-1].args[0] + t.args[0])
        else:
            res.append(t)
    if len(res) == 1:
        return res[0]
    if not res: return mk('str', '')
    return mk('cat', *res)

def seq_parts(t):
    return list(t.args) if t.op == 'cat' else ([] if t.op == 'str' and t.args[0] == '' else [t])

def seq_ite(g, a, b):
    if g is TRUE: return a
    if g is FALSE: return b
    pa, pb = seq_parts(a), seq_parts(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    pre = pa[:i]
    # common string prefix
    ra, rb = pa[i:], pb[i:]
    j = 0
    while j < len(ra) and j < len(rb) and ra[len(ra) - 1 - j] is rb[len(rb) - 1 - j]:
        j += 1
    post = ra[len(ra) - j:] if j else []
    ra = ra[:len(ra) - j]; rb = rb[:len(rb) - j]
    if ra and rb and ra[0].op == 'str' and rb[0].op == 'str':
        x, y = ra[0].args[0], rb[0].args[0]
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]:
            n += 1
        if n:
            pre = pre + [mk('str', x[:n])]
            ra = [mk('str', x[n:])] + ra[1:]
            rb = [mk('str', y[n:])] + rb[1:]
            return cat(*pre, seq_ite(g, cat(*ra), cat(*rb)), *post)
    if not ra and not rb:
        return cat(*pre, *post)
    mid = app('seqite', mk('g', g), cat(*ra), cat(*rb), sort='seq')
    return cat(*pre, mid, *post)

# ---------------------------------------------------------------- BDD guards
class B:
    __slots__ = ('a', 'h', 'l', 'id')
    def __repr__(self):
        return bshow(self)

_btab = {}
_itecache = {}
TRUE = B(); TRUE.a = None; TRUE.h = TRUE.l = None; TRUE.id = 1
FALSE = B(); FALSE.a = None; FALSE.h = FALSE.l = None; FALSE.id = 0
_bid = [1]
_atomrank = {}

_lrank = {}
def _akey(a):
    """position of an atom in the variable order: all bounds of one linear form are adjacent,
    ordered by bound, so that `L<=3` implies `L<=5` structurally"""
    if a.key is None:
        if a.op == 'le':
            L, b = a.args
            r = _lrank.get(L)
            if r is None: r = _lrank[L] = a.id
            a.key = (r, b)
        else:
            a.key = (a.id, 0)
    return a.key

def _same(a, b):
    return a.op == 'le' and b.op == 'le' and a.args[0] is b.args[0] or (a.op == 'le' and b.op == 'le' and a.key[0] == b.key[0])

def _up(x, a):
    """x under `a` true, for a bound atom a: every weaker bound of the same form holds"""
    if a.op != 'le': return x
    r = a.key[0]
    while x.a is not None and x.a.op == 'le' and x.a.key[0] == r: x = x.h
    return x

def _bnode(a, h, l):
    if h is l:
        return h
    if l.a is not None and a.op == 'le' and l.a.op == 'le' and l.a.key[0] == _akey(a)[0] and l.h is h:
        return l
    k = (a.id, h.id, l.id)
    n = _btab.get(k)
    if n is None:
        _akey(a)
        n = B(); n.a = a; n.h = h; n.l = l
        _bid[0] += 1
        n.id = _bid[0]
        _btab[k] = n
    return n

def atom(t):
    return _bnode(t, TRUE, FALSE)

def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f.id, g.id, h.id)
    r = _itecache.get(k)
    if r is not None:
        return r
    top = f.a
    if g.a is not None and g.a.key < top.key: top = g.a
    if h.a is not None and h.a.key < top.key: top = h.a
    if top.op == 'le':
        def hi(x): return x.h if x.a is top else _up(x, top)
    else:
        def hi(x): return x.h if x.a is top else x
    def lo(x): return x.l if x.a is top else x
    r = _bnode(top, bite(hi(f), hi(g), hi(h)), bite(lo(f), lo(g), lo(h)))
    _itecache[k] = r
    return r

def band(*fs):
    r = TRUE
    for f in fs:
        r = bite(r, f, FALSE)
    return r
def bor_(*fs):
    r = FALSE
    for f in fs:
        r = bite(r, TRUE, f)
    return r
def bnot(f):
    return bite(f, FALSE, TRUE)
def bxor(f, g):
    return bite(f, bnot(g), g)
def biff(f, g):
    return bite(f, g, bnot(g))
def bimp(f, g):
    return bite(f, g, TRUE)

def restrict(f, care, _memo=None):
    """simplify f under the assumption care (Coudert-Madre restrict)"""
    if care is FALSE:
        return f
    if _memo is None:
        _memo = {}
    def go(f, c):
        if f is TRUE or f is FALSE or c is TRUE:
            return f
        k = (f.id, c.id)
        if k in _memo:
            return _memo[k]
        if c.a.key < f.a.key:
            if c.h is FALSE: r = go(f, c.l)
            elif c.l is FALSE: r = go(_up(f, c.a), c.h)
            else: r = go(f, bor_(c.h, c.l))
        else:
            if c.a is f.a: ch, cl = c.h, c.l
            else: ch, cl = _up(c, f.a), c
            if ch is FALSE: r = go(f.l, cl)
            elif cl is FALSE: r = go(f.h, ch)
            else: r = _bnode(f.a, go(f.h, ch), go(f.l, cl))
        _memo[k] = r
        return r
    return go(f, care)

def batoms(f, acc=None, seen=None):
    if acc is None: acc = set()
    if seen is None: seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.a is None or x.id in seen: continue
        seen.add(x.id)
        acc.add(x.a)
        st.append(x.h); st.append(x.l)
    return acc

def cofactor(f, a, v):
    memo = {}
    ka = _akey(a)
    isle = a.op == 'le'
    def go(f):
        if f.a is None: return f
        if f.a.key > ka:
            if v and isle: return _up(f, a)
            return f
        r = memo.get(f.id)
        if r is None:
            if f.a is a:
                r = f.h if v else f.l
            elif isle and not v and f.a.op == 'le' and f.a.key[0] == ka[0]:
                r = go(f.l)           # L > b excludes every smaller bound
            else:
                r = _bnode(f.a, go(f.h), go(f.l))
            memo[f.id] = r
        return r
    return go(f)

_must = {}
def must_literals(f):
    """literals (atom, bool) implied by f"""
    r = _must.get(f)
    if r is None: r = _must[f] = _must_literals(f)
    return list(r)
def _must_literals(f):
    out = []
    for a in batoms(f):
        if cofactor(f, a, True) is FALSE: out.append((a, False))
        elif cofactor(f, a, False) is FALSE: out.append((a, True))
    return out

# ---------------------------------------------------------------- comparisons
def _norm_dir(c, d):
    """sum d + c  <= 0 ; returns (L(sorted tuple), bound, flipped) meaning L<=bound, or not(L<=bound)"""
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    lead = d[min(d, key=lambda t: t.id)]
    if lead > 0:
        # L/g <= floor(-c/g)
        L = tuple(sorted(((t, k // g) for t, k in d.items()), key=lambda x: x[0].id))
        return L, (-c) // g, False
    # -L' + c <= 0  ->  L' >= c  -> L'/g >= ceil(c/g)  -> not (L'/g <= ceil(c/g)-1)
    L = tuple(sorted(((t, -k // g) for t, k in d.items()), key=lambda x: x[0].id))
    return L, -((-c) // g) - 1, True

def _ite_atom(t):
    """find an ite sub-atom at the top of a linear form"""
    if t.op == 'ite':
        return t
    if t.op == 'lin':
        r = None; n = 0
        for a, k in t.args[1]:
            if a.op == 'ite':
                n += 1
                if r is None: r = a
        return r if n <= 6 else None
    return None

def le0(t):
    """predicate t <= 0"""
    if t.op == 'int':
        return TRUE if t.args[0] <= 0 else FALSE
    lo, hi = interval(t)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    i = _ite_atom(t)
    if i is not None:
        g = i.args[0]
        return bite(g, le0(resolve_ite(t, g, True)), le0(resolve_ite(t, g, False)))
    c, d = lin_parts(t)
    L, b, flip = _norm_dir(c, d)
    a = atom(mk('le', L, b))
    return bnot(a) if flip else a

def resolve_ite(t, g, v):
    """replace every top-level ite on guard g in linear form t"""
    c, d = lin_parts(t)
    out = I(c)
    for a, k in d.items():
        if a.op == 'ite':
            if a.args[0] is g:
                out = add(out, scale(a.args[1] if v else a.args[2], k))
                continue
            g2 = a.args[0]
            # specialise nested guards
            r = restrict(g2, g if v else bnot(g))
            if r is not g2:
                out = add(out, scale(ite(r, a.args[1], a.args[2]), k))
                continue
        out = add(out, scale(a, k))
    return out

def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), I(1)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    if a is b: return TRUE
    sa, sb = sort_of(a), sort_of(b)
    if sa == 'int' or sb == 'int':
        return eq0(sub(a, b))
    if a.op == 'ite':
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'str' and b.op == 'str':
        return FALSE
    x, y = (a, b) if a.id <= b.id else (b, a)
    return atom(mk('oeq', x, y))

def eq0(t):
    if t.op == 'int':
        return TRUE if t.args[0] == 0 else FALSE
    lo, hi = interval(t)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return FALSE
    i = _ite_atom(t)
    if i is not None:
        g = i.args[0]
        return bite(g, eq0(resolve_ite(t, g, True)), eq0(resolve_ite(t, g, False)))
    c, d = lin_parts(t)
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    c //= g
    d = {a: k // g for a, k in d.items()}
    if d[min(d, key=lambda t: t.id)] < 0:
        c = -c; d = {a: -k for a, k in d.items()}
    t = mklin(c, d)
    return band(le0(t), le0(scale(t, -1)))

# ---------------------------------------------------------------- substitution
def subst(t, env, memo=None):
    """replace terms by env (dict term->term, matched before descending); rebuilds"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in env:
        r = env[t]
    else:
        r = rebuild(t, lambda x: subst(x, env, memo), lambda b: bsubst(b, env, memo))
    memo[t] = r
    return r

_builders = {}
special_rebuild = {}
sort_ite = {}
def builder(op):
    def deco(f):
        _builders[op] = f
        return f
    return deco

def rebuild(t, ft, fb):
    o = t.op
    if o in ('int', 'sym', 'str', 'fconst'):
        return t
    if o in special_rebuild:
        return special_rebuild[o](t, ft, fb)
    if o == 'lin':
        out = I(t.args[0])
        for a, k in t.args[1]:
            out = add(out, scale(ft(a), k))
        return out
    if o == 'ite':
        return ite(fb(t.args[0]), ft(t.args[1]), ft(t.args[2]))
    if o == 'mul': return mul(ft(t.args[0]), ft(t.args[1]))
    if o == 'div': return tdiv(ft(t.args[0]), ft(t.args[1]))
    if o == 'mod': return tmod(ft(t.args[0]), ft(t.args[1]))
    if o == 'band': return bitand(ft(t.args[0]), ft(t.args[1]))
    if o == 'bxor': return bitxor(ft(t.args[0]), ft(t.args[1]))
    if o == 'bor':
        r = I(0)
        for a in t.args: r = bitor(r, ft(a))
        return r
    if o == 'wrap': return wrapn(ft(t.args[0]), t.args[1])
    if o == 'shl': return tshl(ft(t.args[0]), ft(t.args[1]), t.args[2])
    if o == 'shr': return tshr(ft(t.args[0]), ft(t.args[1]))
    if o == 'cat': return cat(*[ft(a) for a in t.args])
    if o == 'g': return mk('g', fb(t.args[0]))
    new = tuple(ft(a) if isinstance(a, T) else fb(a) if isinstance(a, B) else a for a in t.args)
    if o == 'f':
        return fop(*new)
    if o == 'en':
        return mken([(x.args[0], x.args[1], x.args[2:]) for x in new])
    if new == t.args:
        return t
    if o == 'app':
        b = _builders.get(t.args[0])
        if b is not None:
            return b(*new[1:])
        if new[0] == 'seqite':
            return seq_ite(new[1].args[0], new[2], new[3])
        if new[0] == 'popcount':
            return popcount(new[1])
        lo, hi = symrange.get(t.id, (None, None))
        return app(*new, lo=lo, hi=hi, sort=symsort.get(t.id))
    return mk(o, *new)

def bsubst(b, env, memo):
    if b.a is None:
        return b
    k = ('b', b.id)
    r = memo.get(k)
    if r is not None:
        return r
    r = bite(asubst(b.a, env, memo), bsubst(b.h, env, memo), bsubst(b.l, env, memo))
    memo[k] = r
    return r

def asubst(a, env, memo):
    """substitute in an atom -> guard"""
    if a in env:
        return env[a]
    o = a.op
    if o in ('le', 'eq'):
        t = I(-a.args[1])
        for x, k in a.args[0]:
            t = add(t, scale(subst(x, env, memo), k))
        return le0(t) if o == 'le' else eq0(t)
    if o == 'oeq':
        return eq(subst(a.args[0], env, memo), subst(a.args[1], env, memo))
    if o == 'bit':
        return bit(subst(a.args[0], env, memo), subst(a.args[1], env, memo))
    if o == 'p':
        new = tuple(subst(x, env, memo) if isinstance(x, T) else x for x in a.args)
        if new == a.args:
            return atom(a)
        return pred(*new)
    if o == 'flt':
        return flt(subst(a.args[0], env, memo), subst(a.args[1], env, memo))
    if o == 'fle':
        return fle(subst(a.args[0], env, memo), subst(a.args[1], env, memo))
    if o == 'feq':
        return feq(subst(a.args[0], env, memo), subst(a.args[1], env, memo))
    return atom(a)

_preds = {}
def pbuilder(name):
    def deco(f):
        _preds[name] = f
        return f
    return deco

def rawpred(name, *args):
    return atom(mk('p', name, *args))

def pred(name, *args):
    f = _preds.get(name)
    if f is not None:
        return f(*args)
    return rawpred(name, *args)

# ---------------------------------------------------------------- floats
import struct
def fconst(x):
    return mk('fconst', struct.pack('>d', x))
def fval(t):
    return struct.unpack('>d', t.args[0])[0]

def single(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]
def fop(op, *args):
    if all(a.op in ('fconst', 'int') for a in args):
        try:
            v = [fval(a) if a.op == 'fconst' else a.args[0] for a in args]
            r = None
            if op == 'add': r = v[0] + v[1]
            elif op == 'sub': r = v[0] - v[1]
            elif op == 'mul': r = v[0] * v[1]
            elif op == 'div': r = v[0] / v[1] if v[1] != 0 else None
            elif op == 'i2f': r = float(v[0])
            elif op == 'neg': r = -v[0]
            elif op in ('tof32', 'i2f32'): r = single(float(v[0]))
            if r is not None:
                return fconst(r)
        except OverflowError:
            pass
    for i, a in enumerate(args):
        if a.op == 'ite':
            x = list(args); y = list(args)
            x[i] = a.args[1]; y[i] = a.args[2]
            return ite(a.args[0], fop(op, *x), fop(op, *y))
    if op in ('add', 'mul') and args[0].id > args[1].id:
        args = (args[1], args[0])
    return mk('f', op, *args)

def _flift(f, a, b):
    if a.op == 'ite':
        return bite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite':
        return bite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None
def flt(a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        return TRUE if fval(a) < fval(b) else FALSE
    if a is b: return FALSE
    r = _flift(flt, a, b)
    return r if r is not None else atom(mk('flt', a, b))
def fle(a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        return TRUE if fval(a) <= fval(b) else FALSE
    r = _flift(fle, a, b)
    return r if r is not None else atom(mk('fle', a, b))
def feq(a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        return TRUE if fval(a) == fval(b) else FALSE
    r = _flift(feq, a, b)
    if r is not None: return r
    x, y = (a, b) if a.id <= b.id else (b, a)
    return atom(mk('feq', x, y))

# ---------------------------------------------------------------- occurrences
def subterms(x, seen=None):
    """all terms occurring in x (term or guard), including inside guards"""
    if seen is None:
        seen = {}
    st = [x]
    bs = set()
    while st:
        t = st.pop()
        if isinstance(t, B):
            if t.a is None or t.id in bs: continue
            bs.add(t.id)
            st.append(t.a); st.append(t.h); st.append(t.l)
            continue
        if t in seen: continue
        seen[t] = True
        if t.op in ('lin',):
            for a, k in t.args[1]: st.append(a)
        elif t.op in ('le', 'eq'):
            for a, k in t.args[0]: st.append(a)
        else:
            for a in t.args:
                if isinstance(a, (T, B)):
                    st.append(a)
    return seen

def occurs(t, x):
    return t in subterms(x)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14: return '…'
    o = t.op; a = t.args
    s = lambda x: show(x, d + 1) if isinstance(x, T) else bshow(x, d + 1) if isinstance(x, B) else str(x)
    if o == 'int':
        n = a[0]
        return hex(n) if n > 1 << 20 else str(n)
    if o == 'sym': return str(a[0])
    if o == 'lin':
        r = []
        for x, k in a[1]:
            r.append(('' if k == 1 else f'{k}*' if abs(k) < 1 << 20 else f'{hex(k)}*') + s(x))
        if a[0]: r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'ite': return f'({bshow(a[0], d+1)} ? {s(a[1])} : {s(a[2])})'
    if o == 'app': return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if o in ('le', 'eq'):
        r = ' + '.join((s(x) if k == 1 else f'{k}*{s(x)}') for x, k in a[0])
        return f"{r} {'<=' if o == 'le' else '=='} {a[1]}"
    if o == 'fconst': return repr(fval(t))
    if o == 'f': return f"f.{a[0]}({', '.join(s(x) for x in a[1:])})"
    if o == 'p': return f"{a[0]}?({', '.join(s(x) for x in a[1:])})"
    if o == 'str': return repr(a[0])
    return f"{o}({', '.join(s(x) for x in a)})"

def bshow(b, d=0):
    if b is TRUE: return 'T'
    if b is FALSE: return 'F'
    # cubes
    out = []
    def go(b, lits):
        if len(out) > 6: return
        if b is TRUE:
            out.append(' & '.join(lits) or 'T'); return
        if b is FALSE: return
        go(b.h, lits + [show(b.a, d + 1)])
        go(b.l, lits + ['!' + show(b.a, d + 1)])
    go(b, [])
    if len(out) > 6: out = out[:6] + ['…']
    return '[' + ' | '.join(out) + ']'
