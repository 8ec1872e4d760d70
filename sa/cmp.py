"""Comparison of two value graphs under a guard.

Verdicts: 'eq' (equal for every valuation satisfying the guard), 'ne' (a difference remains in a
fragment the domain understands: linear arithmetic, guards, sequences, table and matrix contract
terms), 'unk' (the difference involves a recurrence or operator the domain has no theory of)."""
from vals import *
from mat import *
import vals, terms as tm, arith

OPAQUE = {'fold', 'foldn', 'first', 'exists', 'sum', 'comp', 'upd', 'updslice', 'mapvals', 'unreach', 'undef'}
INFINE = {'err'}          # payloads that no property is about (error messages)

def plain(x):
    for t in subterms(x):
        if t.op == 'app' and t.args[0] in OPAQUE: return False
        if t.op == 'p' and t.args[0] in OPAQUE: return False
        if t.op in ('lam', 'stage', 'src', 'iter', 'fnv', 'closure'): return False
    return True

def closed(a):
    for t in subterms(a):
        if t.op == 'sym' and (t.args[0].startswith('k#') or t.args[0].startswith('acc#')): return False
    return True

def cube(lits):
    r = TRUE
    for a, v in lits:
        r = band(r, atom(a) if v else bnot(atom(a)))
    return r

class Cmp:
    def __init__(self, budget=3000):
        self.n = budget
        self.memo = {}
        self.ign = lambda a, b: False
        self.work = 0

    # ------------------------------------------------------------ simplification
    def under(self, t, ctx, memo=None):
        if ctx is TRUE: return t
        if memo is None: memo = {}
        def ft(x):
            r = memo.get(x)
            if r is None:
                r = memo[x] = rebuild(x, ft, fb)
            return r
        def fb(b):
            if b.a is None: return b
            k = ('b', b.id)
            r = memo.get(k)
            if r is None:
                r = restrict(b, ctx)
                if r.a is not None:
                    r = bsubst(r, {}, Sub(ft))
                    r = restrict(r, ctx)
                    r = self.fmred(r, ctx)
                memo[k] = r
            return r
        return fb(t) if isinstance(t, B) else ft(t)

    def fmred(self, g, ctx):
        lits = tm.must_literals(ctx)
        if not lits: return g
        for a in sorted(batoms(g), key=lambda x: x.key):
            if a.op not in ('le', 'fle', 'flt', 'feq'): continue
            if not closed(a): continue
            if arith.infeasible(lits + [(a, True)]): g = cofactor(g, a, False)
            elif arith.infeasible(lits + [(a, False)]): g = cofactor(g, a, True)
        return g

    def vac(self, ctx):
        if ctx is FALSE: return True
        if ctx is TRUE: return False
        try:
            return arith.sat(ctx, steps=arith.Steps(3000)) is None
        except arith.Budget:
            return False

    # ------------------------------------------------------------ main
    def cmp(self, a, b, ctx=TRUE, depth=0):
        if a is b: return ('eq',)
        k = (a.id, b.id, ctx.id, isinstance(a, B))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._cmp(a, b, ctx, depth)
        return r

    def both(self, *rs):
        for r in rs:
            if r[0] == 'ne': return r
        for r in rs:
            if r[0] == 'unk': return r
        return ('eq',)

    def _cmp(self, a, b, ctx, depth):
        self.n -= 1
        if self.n < 0 or depth > 60: return ('unk', 'comparison budget', None)
        if isinstance(a, B): return self.bcmp(a, b, ctx, depth)
        a = self.under(a, ctx); b = self.under(b, ctx)
        if a is b: return ('eq',)
        if a.op == 'rv' and b.op != 'rv': return self.cmp(a.args[0], b, ctx, depth + 1)
        if b.op == 'rv' and a.op != 'rv': return self.cmp(a, b.args[0], ctx, depth + 1)
        if a.op == b.op and a.op in ('tup', 'rv', 'arr', 'box') and len(a.args) == len(b.args):
            return self.lazy([(lambda x=x, y=y: self.cmp(x, y, ctx, depth + 1)) for x, y in zip(a.args, b.args)])
        if a.op == 'g' and b.op == 'g': return self.bcmp(a.args[0], b.args[0], ctx, depth)
        if a.op == 'g' or b.op == 'g':
            if a.op in ('g', 'ite', 'int') and b.op in ('g', 'ite', 'int'):
                return self.bcmp(asB(a), asB(b), ctx, depth)
        if a.op == 'en' and b.op == 'en':
            A = {x: (g, fs) for x, g, fs in en_alts(a)}; Bb = {x: (g, fs) for x, g, fs in en_alts(b)}
            out = []
            for v in sorted(set(A) | set(Bb)):
                ga, fa = A.get(v, (FALSE, None)); gb, fb = Bb.get(v, (FALSE, None))
                r = self.bcmp(ga, gb, ctx, depth + 1)
                if r[0] != 'eq': return r
                if fa is None or fb is None: continue
                if len(fa) != len(fb): return ('unk', 'variant shape', None)
                c2 = band(ctx, ga)
                for x, y in zip(fa, fb):
                    r = self.cmp(x, y, c2, depth + 1)
                    if r[0] == 'ne': return r
                    out.append(r)
            return self.both(*out) if out else ('eq',)
        # split on a guard
        at = self.pick(a, b, ctx)
        if at is not None:
            out = []
            for v in (True, False):
                c2 = band(ctx, atom(at) if v else bnot(atom(at)))
                if c2 is FALSE: continue
                if arith.infeasible(tm.must_literals(c2)): continue
                r = self.cmp(a, b, c2, depth + 1)
                if r[0] == 'ne': return r
                out.append(r)
            return self.both(*out) if out else ('eq',)
        sa, sb = sort_of(a), sort_of(b)
        if sa == 'int' and sb == 'int': r = self.icmp(a, b, ctx, depth)
        elif sa == 'seq' or sb == 'seq': r = self.scmp(a, b, ctx, depth)
        elif sa == 'mat' and sb == 'mat': r = self.matcmp(a, b, ctx, depth)
        elif sa == 'float' and sb == 'float':
            r = self.args(a, b, ctx, depth)
            if r[0] == 'ne' and not self.vac(ctx) and frat_equal(a, b):
                r = ('unk', 'equal over the reals, different floating-point rounding: ' + r[1], ctx)
        else: r = self.args(a, b, ctx, depth)
        if r[0] == 'eq': return r
        if self.vac(ctx): return ('eq',)
        # congruence through equalities that hold under the guard
        env = self.eqs(ctx)
        if env:
            a2 = subst(a, env); b2 = subst(b, env)
            if a2 is not a or b2 is not b:
                if a2 is b2: return ('eq',)
                c2 = bsubst(ctx, env, {})
                if c2 is not ctx and c2 is not FALSE:
                    r2 = self.cmp(a2, b2, c2, depth + 1)
                    return r2
        return r

    def matcmp(self, a, b, ctx, depth):
        r = self.args(a, b, ctx, depth) if a.op == b.op and a.args[0] == b.args[0] else None
        if r is not None and r[0] == 'eq': return r
        # extensional: dimension and every entry (and, where zeros can be stored, the count)
        kinds = {x.args[-1] for t in (a, b) for x in subterms(t) if x.op == 'app' and x.args[0] in ('msetg', 'minc', 'matnew', 'mget') and isinstance(x.args[-1], str)}
        kd = kinds.pop() if len(kinds) == 1 else 'adj' if not kinds or kinds == {'adj'} else None
        chain = lambda t: t.op == 'app' and t.args[0] in ('msetg', 'mzerog', 'mmind', 'matnew')
        if kd is None or not (chain(a) or chain(b)):
            return r if r is not None else ('unk', f'{show(a)[:200]} vs {show(b)[:200]}', ctx)
        r1 = self.cmp(mdim(a), mdim(b), ctx, depth + 1)
        if r1[0] == 'ne': return r1
        qc = fresh('qc', 0, U64 - 1); qr = fresh('qr', 0, U64 - 1)
        if kd == 'adj': r2 = self.bcmp(min_(a, qc, qr), min_(b, qc, qr), ctx, depth + 1)
        else: r2 = self.cmp(mget(a, qc, qr, kd), mget(b, qc, qr, kd), ctx, depth + 1)
        if r2[0] == 'ne': return r2
        if r1[0] == 'eq' and r2[0] == 'eq' and kd == 'adj': return ('eq',)
        if r is not None and r[0] == 'unk': return r
        return ('unk', f'{show(a)[:200]} vs {show(b)[:200]}', ctx)

    def lazy(self, fs):
        out = []
        for f in fs:
            r = f()
            if r[0] == 'ne': return r
            out.append(r)
        return self.both(*out) if out else ('eq',)

    def eqs(self, ctx):
        """oriented equalities implied literally by the guard"""
        lits = tm.must_literals(ctx)
        env = {}
        les = {}
        for a, v in lits:
            if a.op == 'le':
                les.setdefault(a.args[0], []).append((a.args[1], v))
            elif a.op == 'oeq' and v:
                x, y = a.args
                if x.op in ('sym', 'app') and not occurs(x, y): env[x] = y
        for L, bs in les.items():
            ub = min([b for b, v in bs if v], default=None)
            lb = max([b + 1 for b, v in bs if not v], default=None)
            c, d = 0, dict(L)
            if lb is None or ub is None or lb != ub:
                t = mklin(0, d)
                ilo, ihi = interval(t)
                if ub is not None and ilo == ub: lb = ub
                elif lb is not None and ihi == lb: ub = lb
                else: continue
            for x, k in sorted(L, key=lambda z: -z[0].id):
                if abs(k) == 1 and x.op in ('sym', 'app') and x not in env:
                    rest = mklin(-ub, {y: q for y, q in L if y is not x})
                    if not occurs(x, rest) and not any(occurs(x, e) for e in env.values()) \
                            and not any(occurs(z, rest) for z in env):
                        env[x] = scale(rest, -k)
                        break
        return env

    def pick(self, a, b, ctx):
        """a closed guard atom on the spine of a or b, not yet decided"""
        seen = set()
        best = None
        st = [a, b]
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            gs = ()
            if t.op == 'ite':
                gs = (t.args[0],); st += [t.args[1], t.args[2]]
            elif t.op == 'lin': st += [x for x, k in t.args[1]]
            elif t.op == 'app' and t.args[0] == 'seqite':
                gs = (t.args[1].args[0],); st += [t.args[2], t.args[3]]
            elif t.op == 'app' and t.args[0] in ('fold', 'foldn', 'comp', 'sum'):
                st += [x for x in t.args if isinstance(x, T) and x.op != 'lam']
            elif t.op == 'app' and t.args[0] in ('msetg', 'mzerog'):
                if t.args[2].op == 'g' and (a.op != 'app' or b.op != 'app' or a.args[0] != b.args[0]): gs = (t.args[2].args[0],)
                st += [x for x in t.args[1:] if isinstance(x, T)]
            elif t.op in ('app', 'f', 'cat', 'div', 'mod', 'mul', 'band', 'bor', 'bxor', 'wrap', 'shl', 'shr'):
                st += [x for x in t.args if isinstance(x, T)]
            elif t.op == 'rv' or t.op == 'tup': st += [x for x in t.args if isinstance(x, T)]
            elif t.op == 'g': gs = (t.args[0],)
            elif t.op == 'en': gs = tuple(g for _, g, _f in en_alts(t))
            for g in gs:
                for at in batoms(g):
                    if not closed(at): continue
                    if best is None or at.key < best.key: best = at
        return best

    # ------------------------------------------------------------ leaves
    def icmp(self, a, b, ctx, depth):
        d = sub(a, b)
        if d.op == 'int':
            if d.args[0] == 0: return ('eq',)
            return ('ne', f'{show(a)[:160]} vs {show(b)[:160]}', ctx)
        lits = tm.must_literals(ctx)
        if arith.infeasible(lits, (add(d, I(1)),)) and arith.infeasible(lits, (add(scale(d, -1), I(1)),)):
            return ('eq',)
        c, dd = lin_parts(d)
        # pair terms of opposite sign with the same head
        worst = None
        used = set()
        pos = [x for x, k in dd.items() if k > 0]; neg = [x for x, k in dd.items() if k < 0]
        rest = d
        for x in pos:
            for y in neg:
                if y in used: continue
                if x.op == y.op and x.op in ('app', 'div', 'mod', 'mul', 'band', 'bor', 'bxor', 'wrap', 'shl', 'shr', 'f') and dd[x] == -dd[y] and \
                        (x.op != 'app' or x.args[0] == y.args[0]):
                    r = self.args(x, y, ctx, depth)
                    if r[0] == 'eq':
                        used.add(y)
                        rest = sub(rest, sub(scale(x, dd[x]), scale(y, dd[x])))
                        break
                    if r[0] == 'ne' or worst is None: worst = r
        if used:
            if rest.op == 'int' and rest.args[0] == 0: return ('eq',)
            if arith.infeasible(lits, (add(rest, I(1)),)) and arith.infeasible(lits, (add(scale(rest, -1), I(1)),)):
                return ('eq',)
        if worst is not None and worst[0] == 'unk': return worst
        if worst is None and not plain(d): return ('unk', f'{show(a)[:200]} vs {show(b)[:200]}', ctx)
        return ('ne', f'{show(a)[:200]} vs {show(b)[:200]}', ctx)

    def lams(self, la, lb, n, ctx, depth, accs=True, order=False):
        r = self.lams1(la, lb, n, ctx, depth)
        if r[0] == 'ne' and order and n is not None:
            # the same rounds in the opposite order are not told apart
            k = fresh('i', 0, MAXLEN)
            ac = [fresh('acc', sort=sort_of(x)) for x in la.args[3:]]
            x = lam_apply(la, k, *ac); y = lam_apply(lb, sub(add(n, I(-1)), k), *ac)
            c2 = band(ctx, lt(k, n))
            r2 = self.bcmp(x.args[0], y.args[0], c2, depth + 1) if x.op == 'g' and y.op == 'g' else self.cmp(x, y, c2, depth + 1)
            if r2[0] != 'ne': return ('unk', 'rounds in a different order', ctx)
        return r

    def lams1(self, la, lb, n, ctx, depth):
        k = fresh('i', 0, MAXLEN)
        if len(la.args) != len(lb.args): return ('unk', 'lambda shape', None)
        ac = [fresh('acc', sort=sort_of(x)) for x in la.args[3:]]
        x = lam_apply(la, k, *ac); y = lam_apply(lb, k, *ac)
        c2 = band(ctx, lt(k, n)) if n is not None else ctx
        if x.op == 'g' and y.op == 'g': return self.bcmp(x.args[0], y.args[0], c2, depth + 1)
        return self.cmp(x, y, c2, depth + 1)

    def args(self, a, b, ctx, depth):
        if a.op != b.op: return self.res(a, b, ctx)
        if a.op == 'app':
            n = a.args[0]
            if n != b.args[0] or len(a.args) != len(b.args): return self.res(a, b, ctx)
            if n in INFINE: return ('eq',)
            if n in ('comp', 'sum', 'fold'):
                r = self.cmp(a.args[1], b.args[1], ctx, depth + 1)
                if r[0] != 'eq': return r
                if n == 'fold':
                    r = self.cmp(a.args[2], b.args[2], ctx, depth + 1)
                    if r[0] != 'eq': return r
                return self.lams(a.args[-1], b.args[-1], a.args[1], ctx, depth, order=True)
            if n == 'foldn':
                if a.args[1] is not b.args[1]: return ('unk', 'recurrence components', None)
                r = self.both(self.cmp(a.args[2], b.args[2], ctx, depth + 1), self.cmp(a.args[3], b.args[3], ctx, depth + 1))
                if r[0] != 'eq': return ('unk', 'recurrences differ', ctx)
                return self.lams(a.args[4], b.args[4], a.args[2], ctx, depth)
            if n == 'first':
                r = self.cmp(a.args[1], b.args[1], ctx, depth + 1)
                if r[0] != 'eq': return ('unk', r[1], ctx)
                r = self.lams(a.args[2], b.args[2], a.args[1], ctx, depth)
                return r
        elif a.op in ('int', 'sym', 'str', 'fconst'):
            return self.res(a, b, ctx)
        elif a.op == 'lam':
            return self.lams(a, b, None, ctx, depth)
        elif a.op == 'ite':
            return self.res(a, b, ctx)
        if len(a.args) != len(b.args): return self.res(a, b, ctx)
        out = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                r = self.cmp(x, y, ctx, depth + 1)
            elif isinstance(x, B) and isinstance(y, B):
                r = self.bcmp(x, y, ctx, depth + 1)
            elif x == y or x is y: continue
            else: return self.res(a, b, ctx)
            if r[0] == 'ne':
                return r if plain(a) and plain(b) or r[0] == 'ne' and a.op == 'app' else ('unk', r[1], ctx)
            out.append(r)
        return self.both(*out) if out else ('eq',)

    def res(self, a, b, ctx):
        v = 'ne' if plain(a) and plain(b) else 'unk'
        return (v, f'{show(a)[:200]} vs {show(b)[:200]}', ctx)

    def scmp(self, a, b, ctx, depth):
        A = list(seq_parts(a)); Bp = list(seq_parts(b))
        A = explode(A); Bp = explode(Bp)
        def strip(end):
            nonlocal A, Bp
            last = ('eq',)
            while A and Bp:
                x, y = (A[0], Bp[0]) if not end else (A[-1], Bp[-1])
                r = self.piece(x, y, ctx, depth)
                if r[0] != 'eq': return r
                if end: A = A[:-1]; Bp = Bp[:-1]
                else: A = A[1:]; Bp = Bp[1:]
            return last
        r1 = strip(False)
        if not A and not Bp: return ('eq',)
        r2 = strip(True)
        if not A and not Bp: return ('eq',)
        if r1[0] == 'unk' or r2[0] == 'unk': return r1 if r1[0] == 'unk' else r2
        if len(A) == 1 and len(Bp) == 1:
            r = r1 if r1[0] != 'eq' else r2
            return r
        if all(plain(x) or comp_like(x) for x in A + Bp):
            r = r1 if r1[0] == 'ne' else r2
            return ('ne', r[1] if len(r) > 1 else f'{show(cat(*A))[:200]} vs {show(cat(*Bp))[:200]}', ctx)
        return ('unk', f'{show(cat(*A))[:200]} vs {show(cat(*Bp))[:200]}', ctx)

    def piece(self, x, y, ctx, depth):
        if x is y: return ('eq',)
        if x.op == 'app' and y.op == 'app' and x.args[0] == y.args[0] and len(x.args) == len(y.args):
            return self.args(x, y, ctx, depth)
        if x.op == 'app' and y.op == 'app' and {x.args[0], y.args[0]} == {'comp', 'seqite'}: return ('unk', 'sequence shapes', ctx)
        return self.res(x, y, ctx)

    # ------------------------------------------------------------ guards
    def bcmp(self, f, g, ctx, depth):
        if f is g: return ('eq',)
        f = self.under(f, ctx); g = self.under(g, ctx)
        # outside what both conditions imply they are both false: compare inside it
        ml = [l for l in tm.must_literals(bor_(f, g)) if closed(l[0])]
        if ml:
            ctx = band(ctx, cube(ml))
            f = self.under(f, ctx); g = self.under(g, ctx)
        x = band(ctx, bxor(f, g))
        if x is FALSE: return ('eq',)
        # identify atoms that are equal by congruence
        fa = batoms(f); ga = batoms(g)
        env = {}
        verdict = {}
        for p in fa - ga:
            for q in ga - fa:
                if p.op == q.op and p.op not in ('le',) and len(p.args) == len(q.args) and (p.op != 'p' or p.args[0] == q.args[0]):
                    r = self.atomcmp(p, q, ctx, depth)
                    if r[0] == 'eq':
                        env[p] = atom(q)
                    else:
                        for z in (p, q):
                            if verdict.get(z, ('ne',))[0] != 'unk': verdict[z] = r
        if env:
            x = band(ctx, bxor(bsubst(f, env, {}), g))
            if x is FALSE: return ('eq',)
        try:
            w = arith.sat(x, steps=arith.Steps(20000))
        except arith.Budget:
            return ('unk', 'guard budget', ctx)
        if w is None: return ('eq',)
        # an undecided condition may pin a value that simplifies the rest
        if depth < 40:
            for p in sorted(batoms(restrict(bxor(f, g), ctx)), key=lambda z: z.key):
                if p.op not in ('le', 'oeq') or not closed(p): continue
                hit = False
                for val in (True, False):
                    c2 = band(ctx, atom(p) if val else bnot(atom(p)))
                    e2 = self.eqs(c2)
                    if any(occurs(z, u) for z in e2 for u in (f, g)) and (len(e2) > len(self.eqs(ctx))): hit = True
                if not hit: continue
                out = []
                for val in (True, False):
                    c2 = band(ctx, atom(p) if val else bnot(atom(p)))
                    if c2 is FALSE or arith.infeasible(tm.must_literals(c2)): continue
                    e2 = self.eqs(c2)
                    f2, g2, c3 = f, g, c2
                    if e2:
                        f2, g2 = bsubst(f, e2, {}), bsubst(g, e2, {})
                        c3 = bsubst(c2, e2, {})
                        if c3 is FALSE: continue
                    r = self.bcmp(f2, g2, c3, depth + 4)
                    if r[0] == 'ne': return r
                    out.append(r)
                return self.both(*out) if out else ('eq',)
        # linear-arithmetic atoms whose leaves pair up by congruence
        sup = batoms(restrict(bxor(bsubst(f, env, {}), g), ctx))
        for p in sup:
            if not plain(p):
                vd = verdict.get(p)
                if vd is not None and vd[0] == 'ne': return ('ne', vd[1], band(ctx, x))
                return ('unk', 'guard ' + show(p)[:300], ctx)
        return ('ne', f'condition {bshow(f)[:300]} vs {bshow(g)[:300]}; differs when {arith.show_lits(w)[:500]}', x)

    def atomcmp(self, p, q, ctx, depth):
        if p.op == 'p' and p.args[0] == 'exists':
            r = self.cmp(p.args[1], q.args[1], ctx, depth + 1)
            if r[0] != 'eq': return r
            return self.lams(p.args[2], q.args[2], p.args[1], ctx, depth, order=True)
        out = []
        for x, y in zip(p.args, q.args):
            if isinstance(x, T) and isinstance(y, T): out.append(self.cmp(x, y, ctx, depth + 1))
            elif x is y or x == y: continue
            else: return ('ne', 'argument', ctx)
        return self.both(*out) if out else ('eq',)

def comp_like(x): return x.op == 'app' and x.args[0] in ('elt', 'bytes', 'comp', 'seqite')

def explode(ps):
    out = []
    for p in ps:
        if p.op == 'str' and len(p.args[0]) > 1:
            out += [mk('str', ch) for ch in p.args[0]]
        elif p.op == 'arr':
            out += [elt(x) for x in p.args]
        elif p.op == 'app' and p.args[0] == 'elt' and p.args[1].op == 'int' and 0 <= p.args[1].args[0] < 256 and False:
            out.append(p)
        else: out.append(p)
    return out

class Sub(dict):
    """substitution memo whose term map is an arbitrary rebuilding function"""
    def __init__(self, ft): self.ft = ft
    def get(self, k, d=None):
        if isinstance(k, tuple): return dict.get(self, k, d)
        return self.ft(k)

# ------------------------------------------------------------------ floats as real rational functions
from fractions import Fraction
def _pmul(p, q):
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + a * b
    return {k: v for k, v in r.items() if v}
def _padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items(): r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}
_ONE = {(): Fraction(1)}
def _ipoly(t):
    c, d = lin_parts(t)
    out = {(): Fraction(c)} if c else {}
    for x, k in d.items():
        if x.op == 'mul':
            p = {(): Fraction(k)}
            for y in x.args: p = _pmul(p, _ipoly(y))
            out = _padd(out, p)
        else: out = _padd(out, {(x.id,): Fraction(k)})
    return out
def frat(t):
    if t.op == 'fconst':
        v = fval(t)
        if v != v or v in (float('inf'), float('-inf')): return ({(t.id,): Fraction(1)}, _ONE)
        return ({(): Fraction(v)} if v else {}, _ONE)
    if t.op == 'f':
        o = t.args[0]
        if o == 'i2f': return (_ipoly(t.args[1]), _ONE)
        if o in ('add', 'sub', 'mul', 'div'):
            (n1, d1), (n2, d2) = frat(t.args[1]), frat(t.args[2])
            if o == 'mul': return _pmul(n1, n2), _pmul(d1, d2)
            if o == 'div': return _pmul(n1, d2), _pmul(d1, n2)
            return _padd(_pmul(n1, d2), _pmul(n2, d1), 1 if o == 'add' else -1), _pmul(d1, d2)
        if o == 'neg':
            n1, d1 = frat(t.args[1]); return _padd({}, n1, -1), d1
    return ({(t.id,): Fraction(1)}, _ONE)
def frat_equal(a, b):
    (n1, d1), (n2, d2) = frat(a), frat(b)
    return _pmul(n1, d2) == _pmul(n2, d1)


def pointwise(a, b, ctx):
    """the one part in which two sequences can differ, at an unknown position (x, y, context), or None.

    Parts before and after are equal and x and y have equal lengths at every position, so the sequences
    differ wherever x and y do."""
    found = None
    for _ in range(6):
        c = Cmp()
        a, b = c.under(a, ctx), c.under(b, ctx)
        A, Bp = explode(list(seq_parts(a))), explode(list(seq_parts(b)))
        if len(A) != len(Bp): return found
        d = [(x, y) for x, y in zip(A, Bp) if x is not y and Cmp().cmp(x, y, ctx)[0] != 'eq']
        if len(d) != 1: return found
        x, y = d[0]
        same = lambda p, q: Cmp().cmp(seqlen(p), seqlen(q), ctx)[0] == 'eq'
        cond = next((z.args[1].args[0] for z in (x, y) if z.op == 'app' and z.args[0] == 'seqite'), None)
        if not (x.op == y.op == 'app' and x.args[0] == y.args[0] == 'comp'):
            if cond is not None:
                # one side of a guard
                side = [band(ctx, g) for g in (cond, bnot(cond))]
                side = [g for g in side if g is not FALSE and arith.sat(g) is not None]
                bad = [g for g in side if (lambda u: Cmp().cmp(u.under(x, g), u.under(y, g), g)[0])(Cmp()) != 'eq']
                if len(bad) == 1 and bad[0] is not ctx:
                    a, b, ctx = x, y, bad[0]; continue
            return (x, y, ctx) if same(x, y) else None
        if c.cmp(x.args[1], y.args[1], ctx)[0] != 'eq': return None
        if len(x.args[2].args) != len(y.args[2].args) or len(x.args[2].args) != 3: return None
        k = fresh('k', 0, U64)
        ctx = band(ctx, lt(k, x.args[1]))
        a, b = lam_apply(x.args[2], k), lam_apply(y.args[2], k)
        if Cmp().cmp(seqlen(a), seqlen(b), ctx)[0] != 'eq': return None
    return None
