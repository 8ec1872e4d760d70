"""Value vocabulary of the abstract evaluator: sequences, maps, iteration domains, lambdas.

Smart constructors keep everything in a normal form, so that two pieces of code which compute the
same value by different routes get the same term."""
from terms import *
import terms as tm

UNIT = mk('tup')
MAXLEN = (1 << 63) - 1          # Vec/slice/str lengths fit isize
MAXMAP = 1 << 59                # entries of one in-memory collection (each takes >= 8 bytes, 2^62 addressable)

class Unsupported(Exception):
    pass
class Recursion(Unsupported):
    """a function still calls itself several levels deep"""
    def __init__(self, body, pc):
        Unsupported.__init__(self, 'recursion through ' + body['key'])
        self.body, self.pc = body, pc
    def unbounded(self):
        """the depth follows the data: more levels are feasible and what is passed on is not just numbers"""
        tys = [self.body['locals'][i + 1][0] for i in range(self.body['argc'])]
        if not any(t.startswith('&') and t.lstrip('&').replace('mut ', '') not in NUMERIC for t in tys): return False
        import arith
        try: return arith.sat(self.pc, steps=arith.Steps(20000)) is not None
        except arith.Budget: return False
NUMERIC = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'f32', 'f64'}

def tup(*xs): return mk('tup', *xs)
def G(b): return mk('g', b)
def rv(x): return mk('rv', x)
def asB(t):
    if isinstance(t, B): return t
    if t.op == 'g': return t.args[0]
    if t.op == 'ite': return bite(t.args[0], asB(t.args[1]), asB(t.args[2]))
    if t.op == 'int': return FALSE if t.args[0] == 0 else TRUE
    return pred('true', t)

def opt(g, v):
    return mken([(0, bnot(g), ()), (1, g, (v,))])
NONE = mken([(0, TRUE, ())])
def some(v): return mken([(1, TRUE, (v,))])
def okv(v): return mken([(0, TRUE, (v,))])
def errv(v): return mken([(1, TRUE, (v,))])
def result(g, v, e):
    return mken([(0, g, (v,)), (1, bnot(g), (e,))])

# ------------------------------------------------------------------ lambdas
def _height(x):
    h = 0
    for t in subterms(x):
        if t.op == 'lam':
            h = max(h, t.args[0])
    return h

_fresh = [0]
def fresh(name, lo=None, hi=None, sort='int'):
    _fresh[0] += 1
    return sym(f'{name}!{_fresh[0]}', lo, hi, sort)

def lam(v, body, *more):
    """close over index variable v (and accumulators `more`): lam(height, canonical names.., body)"""
    w = body if isinstance(body, (T, B)) else None
    h = 1 + _height(body)
    cv = sym(f'k#{h}', 0, MAXLEN)
    env = {v: cv}
    acs = []
    for i, m in enumerate(more):
        s = sort_of(m)
        if s == 'bool':
            s = 'obj'
        a = sym(f'acc#{h}.{i}:{s}', None, None, s)
        env[m] = a
        acs.append(a)
    b = subst(body, env) if isinstance(body, T) else G(bsubst(body, env, {}))
    return mk('lam', h, b, cv, *acs)

def lam_apply(l, k, *accs):
    env = {l.args[2]: k}
    for a, x in zip(l.args[3:], accs):
        env[a] = x
    return subst(l.args[1], env)

def lam_open(l, name='k'):
    k = fresh(name, 0, MAXLEN)
    return k, lam_apply(l, k)

def _rebuild_lam(t, ft, fb):
    # bound variables never occur in substitution environments except through lam_apply of the
    # enclosing lambda, whose height is strictly larger
    return mk('lam', t.args[0], ft(t.args[1]), *t.args[2:])
tm.special_rebuild['lam'] = _rebuild_lam

def exists(n, l):
    """some index k < n satisfies predicate lambda l"""
    b = l.args[1].args[0]
    if b is FALSE: return FALSE
    if n.op == 'int':
        r = FALSE
        for i in range(n.args[0]):
            r = bor_(r, asB(lam_apply(l, I(i))))
        return r
    if b is TRUE or not occurs(l.args[2], b):
        return band(b, lt(I(0), n))
    p = pinned(b, l.args[2])
    if p:
        how, t = p
        if how == 'le': return band(lt(I(0), n), le(I(0), t))
        r = band(le(I(0), t), asB(lam_apply(l, t))) if how == 'eq' else TRUE
        if n.op == 'app' and n.args[0] == 'forever': return r if how == 'eq' else TRUE
        return band(r, lt(t if how == 'eq' else tmax(I(0), t), n))
    return rawpred('exists', n, l)
tm._preds['exists'] = exists

def tmax(a, b): return ite(le(a, b), b, a)

def pinned(b, k):
    """the indices satisfying a predicate, when it confines them to one value (and possibly other conditions), or to all from or
    up to a value -> ('eq' | 'ge' | 'le', value)"""
    ks = [a for a in batoms(b) if occurs(k, a)]
    for a in ks:
        if a.op != 'le' or len(ks) > 4: return None
    for a in sorted(ks, key=lambda x: x.id):
        L, c = a.args
        d = dict(L)
        q = d.get(k)
        if q not in (1, -1) or any(occurs(k, t) for t in d if t is not k): return None
        R = mklin(0, {t: x for t, x in d.items() if t is not k})
        t = sub(I(c), R) if q == 1 else sub(R, I(c))       # the bound: k <= t, k >= t
        if b is atom(a): return ('le' if q == 1 else 'ge', t)
        if b is bnot(atom(a)): return ('ge', add(t, I(1))) if q == 1 else ('le', sub(t, I(1)))
        for v in (t, add(t, I(1)), sub(t, I(1))):
            if band(b, bnot(eq(k, v))) is FALSE: return ('eq', v)
    return None

def first(n, l):
    p = pinned(l.args[1].args[0], l.args[2]) if l.args[1].op == 'g' else None
    if p:
        # asked for only where there is one
        return {'eq': lambda t: t, 'le': lambda t: I(0), 'ge': lambda t: tmax(I(0), t)}[p[0]](p[1])
    t = app('first', n, l, lo=0, hi=MAXLEN)
    return t

def summ(n, l):
    """sum over k<n"""
    b = l.args[1]
    k = l.args[2]
    if n.op == 'int' and n.args[0] <= 128:
        return add(*[lam_apply(l, I(i)) for i in range(n.args[0])]) if n.args[0] else I(0)
    if not occurs(k, b):
        return mul(n, b)
    c, d = lin_parts(b)
    # linear: split
    if len(d) > 1 or c:
        out = scale(n, c)
        for t, q in d.items():
            out = add(out, scale(summ(n, mk('lam', l.args[0] if True else 0, t, k)), q))
        return out
    if len(d) == 1:
        (t, q), = d.items()
        if q != 1:
            return scale(summ(n, mk('lam', l.args[0], t, k)), q)
        if t.op == 'ite' and t.args[1].op == 'int' and t.args[2].op == 'int':
            g, x, y = t.args[0], t.args[1].args[0], t.args[2].args[0]
            # canonical polarity: the counted condition is false when no literal holds
            pos = g
            while pos.a is not None: pos = pos.l
            if pos is TRUE: g, x, y = bnot(g), y, x
            if (x, y) != (1, 0):
                u = ite(g, I(1), I(0))
                return add(scale(n, y), scale(summ(n, mk('lam', l.args[0], u, k)), x - y))
            if g is not t.args[0]: return summ(n, mk('lam', l.args[0], ite(g, I(1), I(0)), k))
    lo, hi = interval(b)
    return app('sum', n, l, lo=0 if lo is not None and lo >= 0 else None)
tm._builders['sum'] = summ

# ------------------------------------------------------------------ sequences
EMPTY = mk('str', '')
def elt(v): return app('elt', v, sort='seq')
def be(n, x, order='be'):
    if n == 1: return elt(x)
    return app('bytes', n, order, x, sort='seq')
def comp(n, l):
    b = l.args[1]
    if b is EMPTY: return EMPTY
    if n.op == 'int':
        if n.args[0] <= 256:
            return cat(*[lam_apply(l, I(i)) for i in range(n.args[0])]) if n.args[0] else EMPTY
    # identity: [ seq[k] for k < len(seq) ]
    if b.op == 'app' and b.args[0] == 'elt':
        x = b.args[1]
        if x.op == 'app' and x.args[0] == 'at' and x.args[2] is l.args[2] and not occurs(l.args[2], x.args[1]) and n is seqlen(x.args[1]):
            return x.args[1]
    return app('comp', n, l, sort='seq')
tm._builders['comp'] = comp

def seqite(g, a, b): return seq_ite(g, a, b)

def seqlen(t):
    o = t.op
    if o == 'str': return I(len(t.args[0]))
    if o == 'cat': return add(*[seqlen(x) for x in t.args])
    if o == 'arr': return I(len(t.args))
    if o == 'ite': return ite(t.args[0], seqlen(t.args[1]), seqlen(t.args[2]))
    if o == 'rv': return seqlen(t.args[0])
    if o == 'app':
        n = t.args[0]
        if n == 'elt': return I(1)
        if n == 'bytes': return I(t.args[1])
        if n == 'comp':
            l = t.args[2]
            return summ(t.args[1], mk('lam', l.args[0], seqlen(l.args[1]), l.args[2]))
        if n == 'seqite': return ite(t.args[1].args[0], seqlen(t.args[2]), seqlen(t.args[3]))
        if n == 'slice': return sub(t.args[3], t.args[2])
        if n == 'rept': return t.args[2]
        if n == 'mapseq': return seqlen(t.args[1])
        if n in ('upd', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'reverse'): return seqlen(t.args[1])
    return app('len', t, lo=0, hi=MAXLEN)
tm._builders['len'] = seqlen

def slice_(s, lo, hi):
    if lo.op == 'int' and lo.args[0] == 0 and hi is seqlen(s):
        return s
    if s.op == 'app' and s.args[0] == 'slice':
        return slice_(s.args[1], add(s.args[2], lo), add(s.args[2], hi))
    if s.op == 'rv': return slice_(s.args[0], lo, hi)
    if s.op == 'ite': return ite(s.args[0], slice_(s.args[1], lo, hi), slice_(s.args[2], lo, hi))
    if lo is hi: return EMPTY
    if s.op == 'str' and lo.op == 'int' and hi.op == 'int':
        return mk('str', s.args[0][lo.args[0]:hi.args[0]])
    if s.op == 'arr' and lo.op == 'int' and hi.op == 'int':
        return mk('arr', *s.args[lo.args[0]:hi.args[0]])
    if s.op == 'cat' and lo.op == 'int':
        # drop leading pieces of known size / keep trailing
        pos = 0; i = 0; parts = list(s.args)
        while i < len(parts):
            L = seqlen(parts[i])
            if L.op != 'int' or pos + L.args[0] > lo.args[0]: break
            pos += L.args[0]; i += 1
        if pos == lo.args[0]:
            rest = cat(*parts[i:]) if i < len(parts) else EMPTY
            if hi is seqlen(s): return rest
            if hi.op == 'int':
                out = []; p = pos
                for x in parts[i:]:
                    if p == hi.args[0]: return cat(*out) if out else EMPTY
                    L = seqlen(x)
                    if L.op != 'int': break
                    p += L.args[0]; out.append(x)
                if p == hi.args[0]: return cat(*out)
    return app('slice', s, lo, hi, sort='seq')
tm._builders['slice'] = slice_

def _leafapp(name, args, ty):
    """application of uninterpreted function `name`, result of scalar MIR type ty"""
    lo, hi, so = scalar_range(ty)
    if so == 'bool':
        return G(pred(name, *args))
    return app(name, *args, lo=lo, hi=hi, sort=so)

INT = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, U64), 'usize': (0, U64),
       'u128': (0, (1 << 128) - 1), 'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-(1 << 31), (1 << 31) - 1),
       'i64': (-(1 << 63), (1 << 63) - 1), 'isize': (-(1 << 63), (1 << 63) - 1), 'i128': (-(1 << 127), (1 << 127) - 1),
       'char': (0, 0x10ffff)}
def scalar_range(ty):
    if ty in INT:
        return INT[ty][0], INT[ty][1], 'int'
    if ty in ('f64', 'f32'): return None, None, 'float'
    if ty == 'bool': return None, None, 'bool'
    if ty in ('String', 'std::string::String', 'str') or ty.startswith('std::vec::Vec<') or (ty.startswith('[') ):
        return None, None, 'seq'
    return None, None, 'obj'

def at(s, i, ty='u8'):
    if s.op == 'rv': return at(s.args[0], i, ty)
    if s.op == 'ite': return ite(s.args[0], at(s.args[1], i, ty), at(s.args[2], i, ty))
    if s.op == 'arr':
        if i.op == 'int' and 0 <= i.args[0] < len(s.args): return s.args[i.args[0]]
    if s.op == 'app':
        if s.args[0] == 'slice': return at(s.args[1], add(s.args[2], i), ty)
        if s.args[0] == 'elt' and i.op == 'int' and i.args[0] == 0: return s.args[1]
        if s.args[0] == 'comp':
            l = s.args[2]
            if seqlen(l.args[1]) is I(1):
                return at(lam_apply(l, i), I(0), ty)
        if s.args[0] == 'rept': return s.args[1]
        if s.args[0] == 'seqite':
            return ite(s.args[1].args[0], at(s.args[2], i, ty), at(s.args[3], i, ty))
        if s.args[0] == 'bytes' and i.op == 'int' and 0 <= i.args[0] < s.args[1]:
            n, order, x = s.args[1:]
            j = n - 1 - i.args[0] if order == 'be' else i.args[0]
            return tmod(tdiv(x, I(1 << (8 * j))), I(256))
        if s.args[0] == 'upd':
            _, b, j, v = s.args
            return ite(eq(i, j), v, at(b, i, ty))
    if s.op == 'str' and i.op == 'int':
        return I(ord(s.args[0][i.args[0]])) if i.args[0] < len(s.args[0]) else app('oob', s, i)
    if s.op == 'cat':
        c, d = lin_parts(i)
        if not d:
            p = 0
            for x in s.args:
                L = seqlen(x)
                if L.op != 'int': break
                if c < p + L.args[0]: return at(x, I(c - p), ty)
                p += L.args[0]
    return _leafty('at', (s, i), ty)
tm._builders['at'] = lambda s, i, *r: at(s, i, *(r or ('u8',)))

def _leafty(name, args, ty):
    lo, hi, so = scalar_range(ty)
    if so == 'bool': return G(pred(name, *args, ty))
    if ty == 'u8' : return app(name, *args, lo=0, hi=255)
    return app(name, *args, ty, lo=lo, hi=hi, sort=so)

def beint(n, s, off, order='be'):
    """the n-byte big-endian integer at offset off of s"""
    if s.op == 'rv': return beint(n, s.args[0], off, order)
    if s.op == 'ite': return ite(s.args[0], beint(n, s.args[1], off, order), beint(n, s.args[2], off, order))
    if n == 1: return at(s, off)
    if s.op == 'app' and s.args[0] == 'slice': return beint(n, s.args[1], add(s.args[2], off), order)
    if s.op == 'app' and s.args[0] == 'bytes' and s.args[1] == n and s.args[2] == order and off.op == 'int' and off.args[0] == 0:
        return s.args[3]
    if s.op == 'arr' and off.op == 'int':
        a = s.args[off.args[0]:off.args[0] + n]
        if len(a) == n:
            if all(x.op == 'int' for x in a):
                return I(int.from_bytes(bytes(x.args[0] for x in a), 'big' if order == 'be' else 'little'))
            b0 = a[0]
            if b0.op == 'app' and b0.args[0] == 'at':
                if all(x.op == 'app' and x.args[0] == 'at' and x.args[1] is b0.args[1] and x.args[2] is add(b0.args[2], I(j)) for j, x in enumerate(a)):
                    return beint(n, b0.args[1], b0.args[2], order)
    if s.op == 'cat' and off.op == 'int':
        p = 0
        for x in s.args:
            L = seqlen(x)
            if L.op != 'int': break
            if p <= off.args[0] and off.args[0] + n <= p + L.args[0]:
                return beint(n, x, I(off.args[0] - p), order)
            p += L.args[0]
    return app('beint', n, s, off, order, lo=0, hi=(1 << (8 * n)) - 1)
tm._builders['beint'] = beint

# ------------------------------------------------------------------ maps / sets
MNEW = app('mnew', sort='map')
def mhas(m, k):
    if m.op == 'ite': return bite(m.args[0], mhas(m.args[1], k), mhas(m.args[2], k))
    if m.op == 'rv': return mhas(m.args[0], k)
    if m.op == 'app':
        n = m.args[0]
        if n == 'mnew': return FALSE
        if n == 'mins': return bor_(eq(m.args[2], k), mhas(m.args[1], k))
        if n == 'mrem': return band(bnot(eq(m.args[2], k)), mhas(m.args[1], k))
        if n == 'mapvals': return mhas(m.args[1], k)
    if k.op == 'app' and k.args[0] == 'mkey' and k.args[1] is m:
        return TRUE
    if k.op == 'ite': return bite(k.args[0], mhas(m, k.args[1]), mhas(m, k.args[2]))
    return rawpred('mhas', m, k)
tm._preds['mhas'] = mhas

def mval(m, k, ty):
    if m.op == 'ite': return ite(m.args[0], mval(m.args[1], k, ty), mval(m.args[2], k, ty))
    if m.op == 'rv': return mval(m.args[0], k, ty)
    if m.op == 'app':
        n = m.args[0]
        if n == 'mins': return ite(eq(m.args[2], k), m.args[3], mval(m.args[1], k, ty))
        if n == 'mrem': return mval(m.args[1], k, ty)
        if n == 'mapvals': return lam_apply(m.args[2], I(0), mval(m.args[1], k, ty))
    lo, hi, so = scalar_range(ty)
    if ty == '()': return UNIT
    if so == 'bool': return G(pred('mvalb', m, k))
    if so == 'obj' and ('HashMap<' in ty or 'HashSet<' in ty or 'BTree' in ty): so = 'map'
    return app('mval', m, k, ty, lo=lo, hi=hi, sort=so)
tm._builders['mval'] = mval

def mins(m, k, v):
    if m.op == 'ite':
        a = mins(m.args[1], k, v); b = mins(m.args[2], k, v)
        if a is b: return a
        return ite(m.args[0], a, b)
    if m.op == 'app' and m.args[0] == 'mins' and m.args[2] is k:
        return mins(m.args[1], k, v)
    if m.op == 'app' and m.args[0] == 'mrem' and m.args[2] is k:
        return mins(m.args[1], k, v)
    if v is UNIT and mhas(m, k) is TRUE:
        return m
    return app('mins', m, k, v, sort='map')
tm._builders['mins'] = mins
def mrem(m, k):
    if m is MNEW: return m
    if m.op == 'ite':
        return ite(m.args[0], mrem(m.args[1], k), mrem(m.args[2], k))
    if m.op == 'app' and m.args[0] == 'mrem' and m.args[2] is k: return m
    if m.op == 'app' and m.args[0] == 'mins' and m.args[2] is k: return mrem(m.args[1], k)
    return app('mrem', m, k, sort='map')
tm._builders['mrem'] = mrem
def mlen(m):
    if m.op == 'ite': return ite(m.args[0], mlen(m.args[1]), mlen(m.args[2]))
    if m.op == 'rv': return mlen(m.args[0])
    if m.op == 'app':
        n = m.args[0]
        if n == 'mnew': return I(0)
        if n == 'mins': return add(mlen(m.args[1]), ite(mhas(m.args[1], m.args[2]), I(0), I(1)))
        if n == 'mrem': return sub(mlen(m.args[1]), ite(mhas(m.args[1], m.args[2]), I(1), I(0)))
        if n == 'mapvals': return mlen(m.args[1])
    return app('mlen', m, lo=0, hi=MAXMAP)
tm._builders['mlen'] = mlen
def mapvals(m, l):
    if m is MNEW: return m
    if l.args[1] is l.args[3]: return m
    return app('mapvals', m, l, sort='map')
tm._builders['mapvals'] = mapvals
def mkey(m, k, kty):
    lo, hi, so = scalar_range(kty)
    return app('mkey', m, k, kty, lo=lo, hi=hi, sort=so)
tm._builders['mkey'] = mkey

# ------------------------------------------------------------------ iteration domains
def dlen(d):
    o = d.op
    if o == 'drange':
        n = sub(d.args[1], d.args[0])
        return ite(le(n, I(0)), I(0), n)
    if o == 'dmap': return mlen(d.args[0])
    if o == 'dmat': return tm._builders['mcount'](d.args[0])
    if o == 'dseq': return seqlen(d.args[0])
    if o == 'dchunks': return tdiv(seqlen(d.args[0]) if len(d.args) < 3 else add(seqlen(d.args[0]), I(d.args[1] - 1)), I(d.args[1]))
    if o == 'drev': return dlen(d.args[0])
    if o == 'dstep':
        n = dlen(d.args[0])
        return tdiv(add(n, I(d.args[1] - 1)), I(d.args[1]))
    if o == 'dchain': return add(dlen(d.args[0]), dlen(d.args[1]))
    if o == 'dtake': return ite(le(dlen(d.args[0]), d.args[1]), dlen(d.args[0]), d.args[1])
    if o == 'dzip':
        x, y = dlen(d.args[0]), dlen(d.args[1])
        return ite(le(x, y), x, y)
    if o == 'dlist': return I(len(d.args))
    if o == 'dite': return ite(d.args[0].args[0], dlen(d.args[1]), dlen(d.args[2]))
    raise Unsupported('domain ' + o)

def delem(d, k):
    o = d.op
    if o == 'drange': return add(d.args[0], k)
    if o == 'dmap':
        m, mode, kty, vty = d.args[:4]
        key = mkey(m, k, kty)
        if mode == 'k': return rv(key)
        if mode == 'K': return key
        val = mval(m, key, vty)
        if mode == 'v': return rv(val)
        if mode == 'V': return val
        if mode == 'kv': return tup(rv(key), rv(val))
        if mode == 'KV': return tup(key, val)
        if mode in ('vmut', 'kvmut'):
            ref = d.args[4]
            r = mk('ref', *ref.args, mk('pk', key, vty))
            return r if mode == 'vmut' else tup(rv(key), r)
    if o == 'dmat':
        M, kind = d.args
        hi = max(tm._builders['matbound'](M), 1) - 1
        c = app('ecol', M, k, lo=0, hi=hi); r = app('erow', M, k, lo=0, hi=hi)
        if kind == 'adj': return tup(c, r)
        return tup(tm._builders['mget'](M, c, r, kind), c, r)
    if o == 'dseq':
        s, mode, ety = d.args
        v = at(s, k, ety)
        return rv(v) if mode == 'r' else v
    if o == 'dchunks':
        hi = add(scale(k, d.args[1]), I(d.args[1]))
        if len(d.args) > 2:
            n = seqlen(d.args[0])
            hi = ite(le(hi, n), hi, n)                        # the last one may be shorter
        return rv(slice_(d.args[0], scale(k, d.args[1]), hi))
    if o == 'dtake': return delem(d.args[0], k)
    if o == 'dzip': return tup(delem(d.args[0], k), delem(d.args[1], k))
    if o == 'drev': return delem(d.args[0], sub(add(dlen(d.args[0]), I(-1)), k))
    if o == 'dstep': return delem(d.args[0], scale(k, d.args[1]))
    if o == 'dchain':
        n = dlen(d.args[0])
        return ite(lt(k, n), delem(d.args[0], k), delem(d.args[1], sub(k, n)))
    if o == 'dlist':
        if k.op == 'int': return d.args[k.args[0]]
        r = d.args[-1]
        for i in range(len(d.args) - 2, -1, -1):
            r = ite(eq(k, I(i)), d.args[i], r)
        return r
    if o == 'dite': return ite(d.args[0].args[0], delem(d.args[1], k), delem(d.args[2], k))
    raise Unsupported('domain ' + o)
