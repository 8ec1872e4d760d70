"""Obligations on the byte formats: layout, acceptance and reconstruction."""
from vals import *
from mat import *
import vals, terms as tm, arith, stdm
import cmp as C
from ev import Ev
import chk
from chk import Anchor, Limit, TimeUp, Quiet
from props.names import *
from props.graph import Gx, SG, CG, GR, V, okpart, sect, addedge

def cat_(*xs): return cat(*xs)

# ------------------------------------------------------------------ byte strings for the witness search (see ground.py)
def _near(rng, v, bits=64):
    q = rng.random()
    if q < .3: r = v + rng.choice((-1, 1, 2))
    elif q < .6: r = v ^ (1 << rng.randrange(bits))
    elif q < .8: r = rng.randrange(0, 20)
    else: r = rng.getrandbits(bits)
    return r % (1 << bits)

def _assemble(rng, fields, recs, mutate):
    """fields: [value, width]; recs: [[value...]]; one mutation in the header, a record or the length"""
    tail = []
    if mutate:
        q = rng.random()
        if q < .45: 
            f = rng.choice(fields); f[0] = _near(rng, f[0], 8 * f[1])
        elif q < .8 and recs:
            r = rng.choice(recs); i = rng.randrange(len(r)); r[i] = _near(rng, r[i])
        elif q < .9 and recs: recs.append(list(rng.choice(recs)))
    out = b''.join(int(v).to_bytes(w, 'big') for v, w in fields) + b''.join(int(v).to_bytes(8, 'big') for r in recs for v in r)
    if mutate and rng.random() < .1:
        out = out[:-rng.randrange(1, 9)] if rng.random() < .6 and len(out) > 9 else out + bytes(rng.randrange(1, 9))
    if mutate and rng.random() < .05: out = out[:rng.randrange(0, len(out))]
    return list(out)

def _wide(rng):
    """a vertex count of any magnitude, often next to a number the program mentions"""
    q = rng.random(); cs = getattr(rng, 'consts', None)
    if q < .6 and cs:
        big = [c for c in cs if c > 64]
        v = rng.choice(big if big and rng.random() < .7 else cs) * rng.choice((1, 1, 1, 8)) + rng.choice((0, 0, -8, 8, 1, -1, 7, rng.randrange(64)))
        if rng.random() < .3: v |= rng.getrandbits(max(1, v.bit_length() - 1)) & ~7 if v > 0 else 0
    else: v = rng.getrandbits(rng.randrange(1, 65)) & (~7 if q < .8 else -1)
    return v % (1 << 64)

def gen_std(rng):
    if rng.random() < .15:
        n = _wide(rng); es = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randrange(3))] if n else []
        return _assemble(rng, [[0x7ae71ffd, 4], [1, 4], [n, 8], [len(es), 8], [0, 1], [0, 1]], es, rng.random() < .2)
    n = rng.choice((0, 1, 2, 3, 5, 9)); und = rng.randrange(2)
    es = {(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice((0, 1, 2, 4)))} if n else set()
    if und and rng.random() < .7: es |= {(b, a) for a, b in es}
    es = list(es); rng.shuffle(es)
    if es and rng.random() < .1: es.append(es[0])
    cnt = len(es)
    if und and rng.random() < .15: cnt = len(set(es) | {(b, a) for a, b in es})
    return _assemble(rng, [[0x7ae71ffd, 4], [1, 4], [n, 8], [cnt, 8], [und, 1], [0, 1]], [list(e) for e in es], rng.random() < .6)

def gen_cmp(rng):
    if rng.random() < .15:
        n = _wide(rng); es = {(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randrange(3))} if n else set()
        recs = [[1 << (a % 8 + 8 * (b % 8)), a // 8, b // 8] for a, b in es]
        return _assemble(rng, [[0x71ff7aed, 4], [2, 4], [max(1, -(-n // 8)), 8], [len(recs), 8], [len(recs), 8], [n, 8], [0, 1], [rng.choice((1, 2, 63, 64)), 1]], recs, rng.random() < .2)
    n = rng.choice((0, 1, 3, 7, 8, 9, 12, 16, 17, 20)); und = rng.randrange(2)
    lim = n if rng.random() < .85 else n + 8
    es = {(rng.randrange(lim), rng.randrange(lim)) for _ in range(rng.choice((0, 1, 2, 3, 6)))} if lim else set()
    if und and rng.random() < .75: es |= {(b, a) for a, b in es}
    blk = {}
    for a, b in es: blk[(a // 8, b // 8)] = blk.get((a // 8, b // 8), 0) | 1 << (a % 8 + 8 * (b % 8))
    recs = [[v, c, r] for (c, r), v in blk.items()]
    rng.shuffle(recs)
    if recs and rng.random() < .1:
        d = list(rng.choice(recs)); d[0] = rng.choice((d[0], 1 << rng.randrange(64))); recs.insert(rng.randrange(len(recs)), d)
    ec = sum(bin(r[0]).count('1') for r in recs)
    lvl = rng.choice((1, 1, 2, 33, 63, 64, 64))
    return _assemble(rng, [[0x71ff7aed, 4], [2, 4], [max(1, -(-n // 8)), 8], [len(recs), 8], [ec, 8], [n, 8], [und, 1], [lvl, 1]], recs, rng.random() < .6)

def std_layout(x):
    k = fresh('k', 0, MAXLEN)
    e = delem(mk('dmat', x.M, 'adj'), k)
    n = mcount(x.M)
    return cat(be(4, I(0x7ae71ffd)), be(4, I(1)), be(8, mdim(x.M)), be(8, n), elt(ite(x.und, I(1), I(0))), elt(I(0)),
               comp(n, lam(k, cat(be(8, e.args[0]), be(8, e.args[1])))))

class Cx(Gx):
    """compressed graph: the record fields are identified through their accessors"""
    def __init__(self, ck, W, name='c'):
        Gx.__init__(self, ck, W, CG, name)
        self.edges = self.obs('edge_count', self.pre)
        self.verts = self.obs('vertex_count', self.pre)
        self.level = self.obs('compression_level', self.pre, trait=None)
    def same(self, name, fn, g, und, n, lvl, edges, M, ctx, asp=('dir', 'vertices', 'level', 'count', 'entries')):
        ck = self.ck
        if 'dir' in asp: ck.eq(f'{name}: directedness', fn, self.obs('is_undirected', g), G(und), ctx)
        if 'vertices' in asp: ck.eq(f'{name}: vertex count', fn, self.obs('vertex_count', g), n, ctx)
        if 'level' in asp: ck.eq(f'{name}: compression level', fn, self.obs('compression_level', g, trait=None), lvl, ctx)
        if 'count' in asp: ck.eq(f'{name}: edge count', fn, self.obs('edge_count', g), edges, ctx)
        if 'entries' in asp:
            a, b = V('qa'), V('qb')
            ck.eq(f'{name}: matrix entries', fn, self.obs('get_compressed_matrix_entry', g, a, b, trait=None), mget(M, a, b, 'u64'), ctx)
        if 'matrix' in asp:
            ms = [v for v in g.args if sort_of(v) == 'mat'] if g.op == 'tup' else []
            if len(ms) != 1: raise Unsupported('compressed graph value')
            ck.eq(f'{name}: matrix', fn, ms[0], M, ctx)
            ck.eq(f'{name}: matrix dimension', fn, mdim(ms[0]), mdim(M), ctx)

def cmp_layout(x):
    k = fresh('k', 0, MAXLEN)
    e = delem(mk('dmat', x.M, 'u64'), k)
    n = mcount(x.M)
    return cat(be(4, I(0x71ff7aed)), be(4, I(2)), be(8, mdim(x.M)), be(8, n), be(8, x.edges), be(8, x.verts),
               elt(ite(x.und, I(1), I(0))), elt(x.level),
               comp(n, lam(k, cat(be(8, e.args[0]), be(8, e.args[1]), be(8, e.args[2])))))

def o_layout(ck, W, ty):
    def f(fn):
        x = Gx(ck, W) if ty == SG else Cx(ck, W)
        R = x.run(x.key('to_bytes', GR), [rv(x.pre)])
        ok, v = okpart(x, R)
        if v is None: raise Anchor('to_bytes never succeeds')
        ck.eq('encoder: header and records in the documented order, widths and endianness', fn, v, std_layout(x) if ty == SG else cmp_layout(x), ok)
    sect(ck, 'layout', f'{ty}::to_bytes', f)

def o_capacity(ck, W, ty):
    """failure to size or allocate the buffer is an error value, never an abort"""
    def f(fn):
        x = Gx(ck, W) if ty == SG else Cx(ck, W)
        R = x.run(x.key('to_bytes', GR), [rv(x.pre)])
        ok, v = okpart(x, R)
        ck.eq('encoder: returns on every graph', fn, G(R.pc), G(TRUE))
        for o in R.ev.obs:
            ck.holds(f'encoder: no panic ({o.kind})', fn, bimp(o.pc, o.ok))
        n = mcount(x.M)
        rec = 16 if ty == SG else 24; hdr = 26 if ty == SG else 42
        want = add(scale(n, rec), I(hdr))
        tries = [e for e in R.ev.events if e[0] == 'alloc_try']
        aborts = [e for e in R.ev.events if e[0] == 'alloc_abort']
        for e in aborts:
            sz = e[2][0]
            if sz.op == 'int' and sz.args[0] <= 4096: continue
            ck.viol('encoder: the buffer is never allocated in a way that aborts', fn, f'infallible allocation of {show(sz)[:200]} bytes at {e[3]}')
        if not tries: ck.viol('encoder: the buffer is allocated fallibly', fn, 'no fallible reservation')
        for e in tries:
            ck.eq('encoder: the reservation covers the whole encoding', fn, e[2][0], want, e[1])
        # it succeeds whenever the reservation does
        g = ok
        for a in batoms(ok):
            if a.op == 'p' and a.args[0] == 'allocfail': g = cofactor(g, a, False)
        ck.eq('encoder: succeeds whenever the buffer can be allocated', fn, G(g), G(TRUE))
    sect(ck, 'capacity', f'{ty}::to_bytes', f)

def payload_len(cnt, rec, hdr): return add(scale(cnt, rec), I(hdr))

def dec_std(ck, W, asp):
    def f(fn):
        x = Gx(ck, W)
        s = app('bytes_in', sort='seq')
        ck.gens = (gen_std,)
        R = x.run(x.key('try_from', 'TryFrom'), [rv(s)])
        ok, v = okpart(x, R)
        L = seqlen(s)
        dim, cnt = beint(8, s, I(8)), beint(8, s, I(16))
        und = eq(at(s, I(24)), I(1))
        k = fresh('k', 0, MAXLEN)
        col = lambda k: beint(8, s, add(scale(k, 16), I(26)))
        row = lambda k: beint(8, s, add(scale(k, 16), I(34)))
        acc = fresh('acc', sort='mat')
        M1 = Ev(W.core).fold(cnt, mnewm('adj'), lam(k, addedge(acc, und, col(k), row(k)), acc))
        M = mset(M1, I(0), sub(dim, I(1)), I(0), 'adj', band(lt(I(0), dim), le(mdim(M1), sub(dim, I(1)))))
        hdr = band(le(I(26), L), eq(beint(4, s, I(0)), I(0x7ae71ffd)), eq(beint(4, s, I(4)), I(1)), le(at(s, I(24)), I(1)), eq(at(s, I(25)), I(0)))
        size = eq(L, payload_len(cnt, 16, 26))
        bad = exists(cnt, lam(k, G(bor_(ge(col(k), dim), ge(row(k), dim)))))
        nodup = eq(mcount(M1), cnt)
        want = band(hdr, size, bnot(bad), nodup)
        if 'accept' in asp:
            conds = [('at least a header', le(I(26), L)), ('the magic number', eq(beint(4, s, I(0)), I(0x7ae71ffd))), ('the version', eq(beint(4, s, I(4)), I(1))),
                     ('the direction flag', le(at(s, I(24)), I(1))), ('the weighted flag', eq(at(s, I(25)), I(0))), ('the exact length', size),
                     ('edges inside the dimension', bnot(bad)), ('distinct edges matching the count', nodup)]
            for nm, c in conds: imp(ck, f'decoder: accepted bytes have {nm}', fn, ok, c)
            imp(ck, 'decoder: all well-formed bytes are accepted', fn, want, ok)
        if 'rebuild' in asp and v is not None:
            ctx = band(ok, want)
            a, b = V('qa'), V('qb')
            ck.eq('decoder: directedness comes from the flag', fn, x.obs('is_undirected', v), G(und), ctx)
            ck.eq('decoder: exactly the encoded edges', fn, x.obs('does_edge_exist', v, a, b), G(min_(M, a, b)), ctx)
            # every edge lies inside the header's dimension, so the result has that dimension
            ck.eq('decoder: exactly the encoded vertex count', fn, x.obs('vertex_count', v), mdim(M), ctx)
            ck.eq('decoder: edge count', fn, x.obs('edge_count', v), mcount(M), ctx)
        if 'panic' in asp: nopanic(ck, fn, R, s, 'decoder')
    sect(ck, 'decode', f'{SG}::try_from', f)

def imp(ck, name, fn, a, b):
    """a implies b, for guards containing folds and quantifiers"""
    if chk.SELFTEST:
        import ground
        d = ground.witness(band(a, b), a, TRUE, seed=5, samples=400, gens=ck.gens)
        if d: ck.viol('SELFTEST ' + name, fn, d)
    if band(a, bnot(b)) is FALSE:
        ck.ok(name, fn); return 'eq'
    try:
        with Limit(20):
            if unsat(band(a, bnot(b))): ck.ok(name, fn); return 'eq'
    except (TimeUp, RecursionError): pass
    try:
        with Limit(60): r = C.Cmp(20000).bcmp(band(a, b), a, TRUE, 0)
    except (TimeUp, RecursionError): r = ('unk', 'analysis budget')
    if r[0] == 'eq': ck.ok(name, fn)
    elif r[0] == 'ne': return ck.confirm(name, fn, band(a, b), a, TRUE, r[1], *r[2:])
    else:
        d = ck.refuted(band(a, b), a, TRUE)
        if d: ck.viol(name, fn, d); return 'ne'
        ck.unk(name, fn, r[1])
    return r[0]

def nopanic(ck, fn, R, s, what, facts=None):
    L = seqlen(s)
    groups = {}
    for o in R.ev.obs: groups.setdefault((o.kind, o.fn.split('::')[-1]), []).append(bimp(o.pc, o.ok))
    for (kind, ofn), fs in groups.items():
        nm = f'{what}: cannot panic ({kind} in {ofn.split("::")[-1]})'
        worst = 'ok'
        for f in dict.fromkeys(fs):
            c2 = Quiet(ck)
            asm = facts(f) if facts else TRUE
            r = c2.holds(nm, fn, f, asm)
            if r != 'eq': worst = c2.last; break
        if worst == 'ok': ck.ok(nm, fn, f'{len(fs)} sites')
        else: ck.put(*worst)
    r = C.Cmp().bcmp(R.pc, TRUE, TRUE, 0)
    nm = f'{what}: returns on every input'
    if r[0] == 'eq': ck.ok(nm, fn)
    elif r[0] == 'ne': ck.confirm(nm, fn, R.pc, TRUE, TRUE, r[1], *r[2:])
    else: ck.unk(nm, fn, r[1])
    n = 0
    for e in R.ev.events:
        if e[0] not in ('alloc_abort', 'alloc_try'): continue
        n += 1
        sz = e[2][0]
        # at most a constant times the input: no reservation is sized by an unchecked header field
        small = le(sz, add(scale(L, 64), I(4096)))
        ck.holds(f'{what}: allocations are bounded by the size of the input', fn, bimp(e[1], small))
    if not n: ck.ok(f'{what}: no allocation is sized by input data', fn)

def validbits(e, col, row, n):
    """every edge of block entry e at (col,row) lies inside n vertices"""
    f = TRUE
    for i in range(64):
        inside = band(lt(add(scale(col, 8), I(i % 8)), n), lt(add(scale(row, 8), I(i // 8)), n))
        f = band(f, bimp(bit(e, I(i)), inside))
    return f

def edge_bit(M, i, c, r):
    """the edge stored in bit i of block (c,r) of block matrix M: bit 8*(to mod 8) + from mod 8"""
    return bit(mget(M, c, r, 'u64'), I(i))

def asym_blocks(M):
    """some stored edge has no stored reverse: the reverse of bit i in block (c,r) is bit 8*(i%8)+i/8 of block (r,c)"""
    k = fresh('k', 0, MAXLEN)
    return exists(mcount(M), lam(k, G(asym_body(M, k))))

def asym_body(M, k):
    e, c, r = delem(mk('dmat', M, 'u64'), k).args
    g = FALSE
    for i in range(64):
        g = bor_(g, band(bit(e, I(i)), bnot(edge_bit(M, 8 * (i % 8) + i // 8, r, c))))
    return g

class CDec:
    """the compressed decoder on an unknown byte string, and the pieces of its specification"""
    def __init__(self, ck, W):
        x = self.x = Cx(ck, W)
        s = self.s = app('bytes_in', sort='seq')
        ck.gens = (gen_cmp,)
        R = self.R = x.run(x.key('try_from', 'TryFrom'), [rv(s)])
        self.ok, self.v = okpart(x, R)
        self.L = seqlen(s)
        dim, cnt, ec, n = self.dim, self.cnt, self.ec, self.n = [beint(8, s, I(o)) for o in (8, 16, 24, 32)]
        self.und = eq(at(s, I(40)), I(1)); lvl = self.lvl = at(s, I(41))
        k = self.k = fresh('k', 0, MAXLEN)
        ent = lambda k: beint(8, s, add(scale(k, 24), I(42)))
        col = lambda k: beint(8, s, add(scale(k, 24), I(50)))
        row = lambda k: beint(8, s, add(scale(k, 24), I(58)))
        acc = fresh('acc', sort='mat')
        self.edim = ite(eq(n, I(0)), I(1), tdiv_ceil8(n))
        M0 = mset(mnewm('u64'), I(0), sub(self.edim, I(1)), I(0), 'u64')
        M = self.M = Ev(W.core).fold(cnt, M0, lam(k, mset(acc, ent(k), col(k), row(k), 'u64'), acc))
        self.ent, self.pc = ent, lam(k, popcount(ent(k)))
        self.total = summ(cnt, self.pc)
        self.conds = [('at least a header', le(I(42), self.L)), ('the magic number', eq(beint(4, s, I(0)), I(0x71ff7aed))), ('the version', eq(beint(4, s, I(4)), I(2))),
                 ('the direction flag', le(at(s, I(40)), I(1))), ('a level between 1 and 64', band(le(I(1), lvl), le(lvl, I(64)))),
                 ('the matrix dimension implied by the vertex count', eq(dim, self.edim)), ('the exact length', eq(self.L, payload_len(cnt, 24, 42)))]
        e, c_, r_ = ent(k), col(k), row(k)
        self.head = [('no empty block', bnot(eq(e, I(0)))), ('every block inside the matrix dimension', band(lt(c_, dim), lt(r_, dim)))]
        self.bits = [(bit(e, I(i)), band(lt(add(scale(c_, 8), I(i % 8)), n), lt(add(scale(r_, 8), I(i // 8)), n))) for i in range(64)]
        vb = band(*[bimp(b, ins) for b, ins in self.bits])
        good = band(*[c for _, c in self.head], vb)
        self.bad = exists(cnt, lam(k, G(bnot(good))))
        self.wholes = [bnot(exists(cnt, lam(k, G(bnot(c))))) for _, c in self.head] + [bnot(exists(cnt, lam(k, G(bnot(vb)))))]
        self.sum = eq(self.total, self.ec)
        self.reconcile()
        self.spec()

    def spec(self):
        M, cnt = self.M, self.cnt
        self.distinct = eq(mcount(M), cnt)
        self.asym = asym_blocks(M)
        self.want = band(*[c for _, c in self.conds], bnot(self.bad), self.sum, self.distinct, bimp(self.und, bnot(self.asym)))

    def facts(self, f):
        """entries of the accumulated matrix lie inside the dimension every record was checked against"""
        out = plainctx(self.ok) if any(a.op == 'p' and a.args[0] == 'exists' and v is False for a, v in tm.must_literals(bnot(f))) else TRUE
        if out is TRUE: return TRUE
        for t in tm.subterms(G(f)):
            if getattr(t, 'op', None) == 'app' and t.args[0] in ('ecol', 'erow') and t.args[1] is self.M: out = band(out, lt(t, self.dim))
        return out

    def reconcile(self):
        """bring the code's acceptance condition to the specification's vocabulary, by proved equalities: the code's
        accumulated matrix, and its body of the asymmetry search"""
        ctx = plainctx(self.ok)
        for t in list(tm.subterms(G(self.ok))):
            if getattr(t, 'op', None) == 'app' and t.args[0] == 'mcount' and t.args[1] is not self.M:
                if C.Cmp().cmp(t.args[1], self.M, ctx)[0] == 'eq': self.M = t.args[1]; break
        M = self.M
        want = None
        for a in batoms(self.ok):
            if a.op != 'p' or a.args[0] != 'exists' or a.args[1] is not mcount(M): continue
            k = fresh('k', 0, MAXLEN)
            e, c, r = delem(mk('dmat', M, 'u64'), k).args
            got = asB(lam_apply(a.args[2], k))
            g = asym_body(M, k)
            # an entry lies inside the dimension; here that is the header's, as every block was accepted against it.
            # a bit set in the entry makes it positive.
            facts = band(ctx, lt(c, self.dim), lt(r, self.dim))
            for q in batoms(got):
                if q.op == 'bit' or q in batoms(g): continue
                for v in (True, False):
                    if unsat(band(facts, atom(q) if v else bnot(atom(q)))): got = cofactor(got, q, not v); break
            got = zerobits(got)
            if got is g: self.ok = swap(self.ok, a, asym_blocks(M))

def zerobits(f):
    """drop tests x <= 0 that only repeat what the bits of x say (a number with a bit set is positive)"""
    for q in batoms(f):
        if q.op != 'le' or len(q.args[0]) != 1 or q.args[0][0][1] != 1 or q.args[1] != 0: continue
        x = q.args[0][0][0]
        z, nz = cofactor(f, q, True), cofactor(f, q, False)
        nz0 = nz
        for b in batoms(f):
            if b.op == 'bit' and b.args[0] is x: z, nz0 = cofactor(z, b, False), cofactor(nz0, b, False)
        if z is nz0: f = nz
    return f

def swap(f, a, g):
    return bite(g, cofactor(f, a, True), cofactor(f, a, False))

def tdiv_ceil8(n): return tdiv(add(n, I(7)), I(8))

def univ(ok, cnt, k):
    """what the acceptance condition says about record k: the negated bodies of the refuted quantifiers over the records"""
    out = TRUE
    for a, v in tm.must_literals(ok):
        if a.op == 'p' and a.args[0] == 'exists' and not v and a.args[1] is cnt: out = band(out, bnot(asB(lam_apply(a.args[2], k))))
    return out

def forget(f, keep):
    """existentially quantify the bit atoms other than `keep`"""
    for a in sorted((a for a in batoms(f) if a.op == 'bit' and a is not keep), key=lambda a: a.key):
        f = bor_(cofactor(f, a, False), cofactor(f, a, True))
    return f

def norec(b, bits, hd):
    """the record test b fails on every record whose set bits are all inside: b is, bit by bit, a disjunction"""
    bs = [x.a for x, _ in bits]
    def only(j):
        f = b
        for i, a in enumerate(bs): f = cofactor(f, a, i == j)
        return f
    z = only(None)
    parts = [only(j) for j in range(len(bs))]
    if bor_(z, *[band(x, p) for (x, _), p in zip(bits, parts)]) is not b: return False
    return unsat(band(hd, z)) and all(unsat(band(hd, ins, p)) for (_, ins), p in zip(bits, parts))

def plainctx(ok):
    """the conjuncts of ok that are linear facts about the header"""
    f = TRUE
    for a, v in tm.must_literals(ok):
        if C.plain(a): f = band(f, atom(a) if v else bnot(atom(a)))
    return f

def unsat(f):
    if f is FALSE: return True
    try: return arith.sat(f, steps=arith.Steps(20000)) is None
    except arith.Budget: return False

def dec_cmp(ck, W, asp):
    def f(fn):
        d = CDec(ck, W)
        x, R, ok, v, cnt, k = d.x, d.R, d.ok, d.v, d.cnt, d.k
        if 'accept' in asp:
            for nm, c in d.conds: imp(ck, f'decoder: accepted bytes have {nm}', fn, ok, c)
            P = univ(ok, cnt, k)
            base = band(plainctx(ok), lt(k, cnt))
            red = C.Cmp().under(P, base)
            head_, bits = d.head, d.bits
            def rec(nm, ctx, q, whole):
                if unsat(band(base, ctx, bnot(q))): ck.ok(nm, fn)
                else: imp(ck, nm, fn, ok, whole)
            none = forget(red, None)
            for (nm, c), whole in zip(d.head, d.wholes): rec(f'decoder: accepted bytes have {nm}', none, c, whole)
            allok = True
            for i, (b, inside) in enumerate(d.bits):
                if not unsat(band(base, forget(red, b.a), b, bnot(inside))): allok = False; break
            nm = 'decoder: accepted bytes have every edge inside the vertex count'
            if allok: ck.ok(nm, fn)
            else: imp(ck, nm, fn, ok, d.wholes[-1])
            imp(ck, 'decoder: accepted bytes declare the number of edges they contain', fn, ok, d.sum)
            imp(ck, 'decoder: accepted bytes have distinct blocks', fn, ok, d.distinct)
            imp(ck, 'decoder: accepted undirected bytes are symmetric', fn, band(ok, d.und), bnot(d.asym))
            # completeness: under the specification every refuted quantifier over the records is refuted
            ok2 = ok
            # a partial sum of popcounts does not exceed the whole, which is the declared count
            part = le(add(summ(k, d.pc), popcount(d.ent(k))), d.ec)
            hd = band(plainctx(d.want), lt(k, cnt), part, *[c for _, c in d.head])
            for a in batoms(ok):
                if a.op == 'p' and a.args[0] == 'exists' and a.args[1] is cnt:
                    if norec(asB(lam_apply(a.args[2], k)), d.bits, hd): ok2 = cofactor(ok2, a, False)
            imp(ck, 'decoder: all well-formed bytes are accepted', fn, d.want, ok2)
        if 'rebuild' in asp and v is not None:
            c = plainctx(ok)
            x.same('decoder', fn, v, d.und, d.n, d.lvl, d.ec, d.M, c, ('dir', 'vertices', 'level', 'entries'))
            tot = band(c, d.sum)
            ck.eq('decoder: edge count is the number of encoded edges', fn, x.obs('edge_count', v), d.total, tot)
        if 'panic' in asp: nopanic(ck, fn, R, d.s, 'decoder', d.facts)
    sect(ck, 'decode', f'{CG}::try_from', f)
