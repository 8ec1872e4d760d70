"""The arithmetic abstract domain (rational polyhedra with integer tightening), theory axioms
for the predicate atoms, and the finite case analysis that compares two value graphs."""
from math import gcd
from terms import *
import terms as tm

class Budget(Exception):
    pass

# predicate name -> f(args, value) -> list of terms t meaning t <= 0
pred_axioms = {}
# app name -> f(term) -> list of terms t meaning t <= 0  (facts about a function application)
app_axioms = {}

def _constraint(t):
    c, d = lin_parts(t)
    return c, d

def lit_constraints(a, v):
    if a.op == 'le':
        L, b = a.args
        if v:
            return [mklin(-b, dict(L))]
        return [mklin(b + 1, {x: -k for x, k in L})]
    if a.op == 'eq' and v:
        L, b = a.args
        return [mklin(-b, dict(L)), mklin(b, {x: -k for x, k in L})]
    if a.op == 'p':
        f = pred_axioms.get(a.args[0])
        if f:
            return f(a.args[1:], v)
    return []

def _theory_facts(atoms):
    """closure of facts for the integer atoms occurring in constraints"""
    out = []
    seen = set()
    st = list(atoms)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        new = []
        lo, hi = interval(t)
        if lo is not None: new.append(mklin(lo, {t: -1}))
        if hi is not None: new.append(mklin(-hi, {t: 1}))
        if t.op in ('div', 'mod'):
            a, b = t.args
            la, _ = interval(a)
            lb, _ = interval(b)
            if b.op == 'int' and la is not None and la >= 0:
                n = b.args[0]
                q = mk('div', a, b)
                if t.op == 'div':
                    new.append(sub(scale(t, n), a))                    # n*q <= a
                    new.append(sub(a, add(scale(t, n), I(n - 1))))     # a <= n*q + n-1
                else:
                    e = add(sub(a, scale(q, n)), scale(t, -1))         # a - n*q - m = 0
                    new.append(e); new.append(scale(e, -1))
                    st.append(q)
            elif la is not None and la >= 0:
                if t.op == 'div':
                    new.append(sub(t, a))
                else:
                    new.append(sub(t, a))
                    # a = b*q + m with b >= 1 (a division by zero has already panicked): q + m <= a
                    new.append(sub(add(t, mk('div', a, b)), a))
                    if lb is not None and lb >= 1:
                        new.append(add(sub(t, b), I(1)))
        elif t.op == 'ite':
            pass
        elif t.op == 'app':
            f = app_axioms.get(t.args[0])
            if f: new += f(t)
        elif t.op == 'mul':
            pass
        for n in facts.get(t, ()):
            new.append(n)
        for n in new:
            if n.op == 'int':
                out.append(n)
                continue
            out.append(n)
            for x in lin_parts(n)[1]:
                if x not in seen: st.append(x)
    return out

_inf_cache = {}

def infeasible(lits, extra=()):
    """True if the conjunction is impossible (sound: may return False when unsure)"""
    key = (frozenset((a.id, v) for a, v in lits), tuple(sorted(e.id for e in extra)))
    r = _inf_cache.get(key)
    if r is None:
        r = _infeasible(lits, extra)
        _inf_cache[key] = r
    return r

def _infeasible(lits, extra):
    cons = list(extra)
    diseqs = []
    for a, v in lits:
        cons += lit_constraints(a, v)
        if a.op == 'eq' and not v:
            diseqs.append(a)
    if _float_inconsistent(lits):
        return True
    if _infeas_cons(cons):
        return True
    # disequalities: x != c with bounds forcing x == c
    for a in diseqs:
        L, b = a.args
        t = mklin(-b, dict(L))
        if _infeas_cons(cons + [add(t, I(1))]) and _infeas_cons(cons + [add(scale(t, -1), I(1))]):
            return True
    return False

def _infeas_cons(cons):
    for c in cons:
        if c.op == 'int' and c.args[0] > 0:
            return True
    cons = [c for c in cons if c.op != 'int']
    if not cons:
        return False
    atoms = set()
    for c in cons:
        atoms |= set(lin_parts(c)[1])
    facts_ = _theory_facts(atoms)
    for f in facts_:
        if f.op == 'int' and f.args[0] > 0: return True
    # expand ite atoms within facts conservatively: drop those constraints
    rows = set()
    alla = set(atoms)
    for c in cons + [f for f in facts_ if f.op != 'int']:
        k, d = lin_parts(c)
        alla |= set(d)
        rows.add(_nrow(k, {x.id: v for x, v in d.items()}))
    if _fm(rows): return True
    # quotients by a divisor that is not a constant: q >= 1 when a >= b is implied, q = 0 when a < b is
    more = set()
    row = lambda t: _nrow(lin_parts(t)[0], {x.id: v for x, v in lin_parts(t)[1].items()})
    for q in sorted((x for x in alla if x.op == 'div' and x.args[1].op != 'int'), key=lambda x: x.id):
        a, b = q.args
        d = sub(a, b)
        if d.op == 'int': continue
        if _fm(rows | {row(add(d, I(1)))}): more.add(row(sub(I(1), q)))
        elif _fm(rows | {row(scale(d, -1))}): more.add(row(q))
    return bool(more) and _fm(rows | more)

def _nrow(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {x: v // g for x, v in d.items()}
        c = -((-c) // g)      # ceil(c/g): sum + c/g <= 0 -> sum <= floor(-c/g)
    return (c, tuple(sorted(d.items())))

def _fm(rows, cap=600):
    rows = set(rows)
    while True:
        # tighten: keep strongest per direction; detect x<=a, -x<=b contradictions
        best = {}
        for c, d in rows:
            if not d:
                if c > 0: return True
                continue
            if d not in best or best[d] < c:
                best[d] = c
        for d, c in best.items():
            nd = tuple((x, -v) for x, v in d)
            if nd in best and c + best[nd] > 0:
                return True
        rows = set((c, d) for d, c in best.items())
        if not rows:
            return False
        # equalities: substitute
        eqd = None
        for d, c in best.items():
            nd = tuple((x, -v) for x, v in d)
            if nd in best and best[nd] == -c:
                for x, v in d:
                    if abs(v) == 1:
                        eqd = (d, c, x, v); break
            if eqd: break
        if eqd:
            d, c, x, v = eqd
            # v*x + rest + c = 0 -> x = -(rest + c)/v
            rest = {y: k for y, k in d if y != x}
            new = set()
            for c2, d2 in rows:
                dd = dict(d2)
                k = dd.pop(x, 0)
                if k:
                    f = -k * v   # since v = +-1, 1/v = v
                    for y, q in rest.items():
                        dd[y] = dd.get(y, 0) + f * q
                    c2 = c2 + f * c
                    dd = {y: q for y, q in dd.items() if q}
                    if not dd:
                        if c2 > 0: return True
                        continue
                    new.add(_nrow(c2, dd))
                else:
                    new.add((c2, d2))
            rows = new
            continue
        # choose variable
        occ = {}
        for c, d in rows:
            for x, v in d:
                p, n = occ.get(x, (0, 0))
                occ[x] = (p + 1, n) if v > 0 else (p, n + 1)
        x = min(occ, key=lambda y: occ[y][0] * occ[y][1] - occ[y][0] - occ[y][1])
        p, n = occ[x]
        if p * n > cap:
            return False
        pos = []; neg = []; new = set()
        for c, d in rows:
            k = dict(d).get(x, 0)
            if k > 0: pos.append((c, d, k))
            elif k < 0: neg.append((c, d, k))
            else: new.add((c, d))
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                a, b = -k2, k1
                dd = {}
                for y, q in d1: dd[y] = dd.get(y, 0) + a * q
                for y, q in d2: dd[y] = dd.get(y, 0) + b * q
                dd = {y: q for y, q in dd.items() if q}
                c = a * c1 + b * c2
                if not dd:
                    if c > 0: return True
                    continue
                new.add(_nrow(c, dd))
        if len(new) > cap:
            return False
        rows = new

NEVER_NAN = set()
def _float_inconsistent(lits):
    rel = {}
    for a, v in lits:
        if a.op in ('flt', 'fle', 'feq'):
            x, y = a.args
            rel.setdefault(frozenset((x.id, y.id)), []).append((a, v))
    if not rel:
        return False
    byvar = {}
    for k, ls in rel.items():
        a0 = ls[0][0]
        x, y = a0.args
        # possible relations of (x,y): 'lt','eq','gt','un'
        poss = []
        for r in ('lt', 'eq', 'gt', 'un'):
            ok = True
            for a, v in ls:
                rr = r
                if a.args[0] is not x:
                    rr = {'lt': 'gt', 'gt': 'lt'}.get(r, r)
                t = {'flt': rr == 'lt', 'fle': rr in ('lt', 'eq'), 'feq': rr == 'eq'}[a.op]
                if t != v: ok = False; break
            if ok: poss.append(r)
        if not poss:
            return True
        for var, other in ((x, y), (y, x)):
            if other.op == 'fconst' and var.op != 'fconst':
                byvar.setdefault(var, []).append((fval(other), set(poss if var is x else [{'lt': 'gt', 'gt': 'lt'}.get(r, r) for r in poss])))
    for var, cs in byvar.items():
        pts = sorted(set(c for c, _ in cs))
        cand = ['nan'] + [('p', c) for c in pts]
        edges = [float('-inf')] + pts + [float('inf')]
        for i in range(len(edges) - 1):
            cand.append(('i', edges[i], edges[i + 1]))
        ok = False
        for r in cand:
            good = True
            for c, ps in cs:
                if r == 'nan': rel_ = 'un'
                elif r[0] == 'p': rel_ = 'lt' if r[1] < c else 'eq' if r[1] == c else 'gt'
                else: rel_ = 'lt' if r[2] <= c else 'gt'
                if rel_ not in ps: good = False; break
            if good: ok = True; break
        if not ok:
            return True
    return False

def _congruence_bad(lits):
    """opposite literals of the same predicate whose arguments are provably equal"""
    groups = {}
    for a, v in lits:
        if a.op in ('p', 'bit', 'oeq', 'eq'):
            key = (a.op, a.args[0] if a.op == 'p' else None, len(a.args))
            groups.setdefault(key, []).append((a, v))
    for key, ls in groups.items():
        pos = [a for a, v in ls if v]; neg = [a for a, v in ls if not v]
        for a in pos:
            for b in neg:
                if key[0] == 'eq': continue
                same = True
                for x, y in zip(a.args, b.args):
                    if x is y: continue
                    if not isinstance(x, T) or not isinstance(y, T) or sort_of(x) != 'int' or sort_of(y) != 'int':
                        same = False; break
                    if not _entailed_eq(lits, x, y):
                        same = False; break
                if same: return True
    return False

def _entailed_eq(lits, x, y):
    d = sub(x, y)
    if d.op == 'int':
        return d.args[0] == 0
    return infeasible(lits, (add(d, I(1)),)) and infeasible(lits, (add(scale(d, -1), I(1)),))

class Steps:
    scale = 1
    def __init__(self, n): self.n = n * Steps.scale

def sat(F, lits=(), steps=None):
    """search a theory-consistent case of F; returns list of literals or None"""
    if steps is None:
        steps = Steps(60000)
    steps.n -= 1
    if steps.n < 0:
        raise Budget()
    if F is FALSE:
        return None
    lits = list(lits)
    if F is TRUE:
        if infeasible(lits) or _congruence_bad(lits):
            return None
        return lits
    a = F.a
    # prefer equality atoms: they rewrite the others
    for v in (True, False):
        F2 = F.h if v else F.l
        if F2 is FALSE:
            continue
        l2 = lits + [(a, v)]
        if infeasible(l2):
            continue
        env = None
        eqn = None
        if a.op == 'le':
            L0, b0 = a.args
            for a1, v1 in lits:
                if a1.op == 'le' and a1.args[0] == L0:
                    if v and not v1 and a1.args[1] == b0 - 1: eqn = (L0, b0)
                    if not v and v1 and a1.args[1] == b0 + 1: eqn = (L0, b0 + 1)
        if eqn:
            L, b = eqn
            for x, k in sorted(L, key=lambda z: -z[0].id):
                if abs(k) == 1 and x.op in ('sym', 'app'):
                    rest = mklin(-b, {y: q for y, q in L if y is not x})
                    if not occurs(x, rest):
                        env = {x: scale(rest, -k)}   # k*x + rest = 0
                        break
        elif v and a.op == 'oeq':
            x, y = a.args
            if x.op in ('sym', 'app') and not occurs(x, y): env = {x: y}
            elif y.op in ('sym', 'app') and not occurs(y, x): env = {y: x}
        if env:
            memo = {}
            F2 = bsubst(F2, env, memo)
            for a0, v0 in lits:
                if a0.op not in ('le',):
                    g = asubst(a0, env, memo)
                    F2 = band(F2, g if v0 else bnot(g))
                    if F2 is FALSE: break
        r = sat(F2, l2, steps)
        if r is not None:
            return r
    return None

def prove(f, assume=TRUE):
    """f holds whenever assume does; returns (ok, counterexample literals)"""
    r = sat(band(assume, bnot(f)))
    return (r is None), r

def show_lits(ls):
    return ', '.join(('' if v else 'NOT ') + show(a) for a, v in ls)
