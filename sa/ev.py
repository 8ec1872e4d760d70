"""Abstract evaluator over the extracted MIR: gated value-graph construction.

Basic blocks are processed once, in topological order of the loop nest; states are merged at joins
(values become guarded selections), local callees are inlined as summaries in context, loops are
either unfolded when their trip count is a literal or replaced by closed forms (induction values,
sums, comprehensions, folds, first-exit indices).  No path is enumerated and no program is run."""
import json, os
from vals import *
from mat import *
import vals, terms as tm
import arith

class Prog:
    def __init__(self, files):
        self.bodies = {}
        self.types = {}
        self.items = []
        self.adts = {}
        self.consts = {}
        self.externs = []
        self.surface, self.statics = [], []
        self.crates = []
        for f in files:
            d = json.load(open(f))
            self.crates.append(d['crate'])
            for b in d['bodies']:
                b['crate_'] = d['crate']
                self.bodies[b['key']] = b
            self.types.update(d['types'])
            for it in d['items']:
                it['crate'] = d['crate']
                self.items.append(it)
            for c in d['consts']:
                self.consts[c[0]] = c
            self.externs.append(d.get('externs'))
            self.surface += d.get('surface', [])
            self.statics += d.get('statics', [])
            self.adts.update({a: 1 for a in d['adts']})
    def find(self, suffix):
        r = [b for k, b in self.bodies.items() if k == suffix]
        if r: return r[0]
        r = [b for k, b in self.bodies.items() if k.endswith('::' + suffix) or k.endswith(suffix)]
        r = [b for b in r if not b['key'].startswith('closure@') and '::tests::' not in b['key']]
        if len(r) == 1: return r[0]
        raise Unsupported(f'anchor not found: {suffix} ({len(r)} candidates)')

class Ob:
    __slots__ = ('pc', 'ok', 'kind', 'span', 'fn', 'extra')
    def __init__(self, pc, ok, kind, span, fn, extra=None):
        self.pc, self.ok, self.kind, self.span, self.fn, self.extra = pc, ok, kind, span, fn, extra
    def __repr__(self): return f'{self.kind} @{self.span} in {self.fn}'

class Loop:
    def __init__(self): self.skips = []; self.frame = None; self.lit = False; self.sym = False; self.S = frozenset()

def ty_mut_ref(ty): return ty.startswith('&mut ') or (ty.startswith("&'") and ' mut ' in ty.split(' ', 2)[1] + ' ')

class Ev:
    def __init__(self, prog, contracts=()):
        self.p = prog
        self.contracts = list(contracts)     # [(matcher(fn)->bool, handler(Call))]
        self.obs = []                        # obligations
        self.events = []                     # (kind, pc, payload, span, fn)
        self.loops = []                      # active loop records
        self.stack = []                      # call stack (keys)
        self.nframe = 0
        self.visited = set()
        self.calls = 0
        self.unmodelled = set()
        self.max_inline = 60
        self.loop_assume = TRUE
        self.tmpn = 0
        self.loop_hook = None                # takes over the analysis of a loop

    # ---------------------------------------------------------------- types
    def T(self, ty):
        return self.p.types.get(ty)
    def norm(self, ty):
        return ty

    def is_enum(self, ty):
        t = self.T(ty)
        return bool(t and t['kind'] == 'enum')

    def leaf(self, name, args, ty):
        lo, hi, so = scalar_range(ty)
        if so == 'bool': return G(pred(name, *args))
        if args is None:
            pass
        return app(name, *args, lo=lo, hi=hi, sort=so)

    def typed(self, name, args, ty, depth=0):
        """an unknown value of MIR type ty, named name(args) -- structured as far as its type is"""
        t = self.T(ty)
        if depth > 6: return self.leaf(name, args, ty)
        if ty == '()': return UNIT
        if ty.startswith('matrix::csr_') and self.matrix_opaque(ty):
            return app(name, *args, sort='mat')
        if t is None:
            return self.leaf(name, args, ty)
        k = t['kind']
        if k == 'ref':
            if t['mut']:
                return self.leaf(name, args, ty)
            return rv(self.typed(name, args, t['to'], depth + 1))
        if k == 'tuple':
            ts = t.get('elems') or t.get('fields') or t.get('targs') or []
            return tup(*[self.typed(f'{name}.{i}', args, x, depth + 1) for i, x in enumerate(ts)])
        if k == 'struct' and t.get('open', False):
            if t['path'].startswith(('std::collections', 'std::vec', 'std::string', 'std::boxed', 'alloc', 'std::slice', 'std::ffi', 'std::fmt')):
                return self.leaf2(name, args, ty, t)
            fs = t['variants'][0]['fields']
            return tup(*[self.typed(f'{name}.{f[0]}', args, f[1], depth + 1) for f in fs])
        if k == 'struct':
            return self.leaf2(name, args, ty, t)
        if k == 'enum' and t['path'] in ('std::option::Option', 'std::result::Result'):
            alts = []
            g = pred('isv1', *[x for x in (app(name, *args, sort='obj'),)])
            for vi, v in enumerate(t['variants']):
                fs = tuple(self.typed(f'{name}.{v["name"]}{j}', args, f[1], depth + 1) for j, f in enumerate(v['fields']))
                alts.append((vi, g if vi == 1 else bnot(g), fs))
            return mken(alts)
        if k in ('array', 'slice', 'str'):
            return app(name, *args, sort='seq')
        return self.leaf(name, args, ty)

    def leaf2(self, name, args, ty, t):
        p = t['path']
        if p in ('std::vec::Vec', 'std::string::String', 'alloc::vec::Vec', 'alloc::string::String'):
            return app(name, *args, sort='seq')
        if 'HashMap' in p or 'HashSet' in p or 'BTree' in p:
            return app(name, *args, sort='map')
        return self.leaf(name, args, ty)

    def matrix_opaque(self, ty): return any(getattr(h, 'matrix_layer', False) for _, h in self.contracts)

    # ---------------------------------------------------------------- aggregates
    def fld(self, v, i, ty=None):
        o = v.op
        if o == 'tup':
            if i >= len(v.args): raise Unsupported(f'field {i} of {show(v)[:80]}')
            return v.args[i]
        if o == 'arr': return v.args[i]
        if o == 'ite': return ite(v.args[0], self.fld(v.args[1], i, ty), self.fld(v.args[2], i, ty))
        if o == 'box' and i == 0: return v
        return self.typed(f'.{i}', (v,), ty or '?')

    def expand(self, v, ty):
        """view v as an enum value"""
        if v.op == 'en': return v
        if v.op == 'ite':
            return en_merge(v.args[0], self.expand(v.args[1], ty), self.expand(v.args[2], ty))
        if v.op == 'rv': return self.expand(v.args[0], self.deref_ty(ty))
        t = self.T(ty)
        if t is None or t['kind'] != 'enum':
            raise Unsupported(f'enum view of {show(v)[:60]} : {ty}')
        alts = []
        rest = TRUE
        n = len(t['variants'])
        for vi, vv in enumerate(t['variants']):
            if n == 2:
                g1 = pred('isv1', v)
                g = g1 if vi == 1 else bnot(g1)
            elif vi == n - 1:
                g = rest
            else:
                a = pred('isvar', v, I(vi))
                g = band(rest, a); rest = band(rest, bnot(a))
            fs = tuple(self.typed(f'.v{vi}.{j}', (v,), f[1]) for j, f in enumerate(vv['fields']))
            alts.append((vi, g, fs))
        return mken(alts)

    def deref_ty(self, ty):
        t = self.T(ty)
        if t and t['kind'] in ('ref', 'ptr'): return t['to']
        return ty

    # ---------------------------------------------------------------- memory
    def cellof(self, st, ptr, ty):
        """memory cell of an unknown pointer value"""
        c = f'D:{ptr.id}'
        if c not in st:
            st[c] = self.typed('deref', (ptr,), ty)
        return c

    def load(self, st, ref, ty=None, rec=True):
        o = ref.op
        if o == 'rv': return ref.args[0]
        if o == 'box': return ref.args[0]
        if o == 'ref':
            v = st.get(ref.args[0])
            if v is None: raise Unsupported('load of uninitialised ' + str(ref.args[0]))
            for p in ref.args[1:]:
                v = self.proj(v, p)
            return v
        if o == 'ite':
            return ite(ref.args[0], self.load(st, ref.args[1], ty, rec), self.load(st, ref.args[2], ty, rec))
        if o == 'sref':       # reference to a sub-slice of a mutable sequence
            return slice_(self.load(st, ref.args[0]), ref.args[1], ref.args[2])
        if ty is None: raise Unsupported('deref of ' + show(ref)[:80])
        if rec: self.event('deref', ref, False)
        return st[self.cellof(st, ref, ty)]

    def proj(self, v, p):
        o = p.op
        if o == 'pf': return self.fld(v, p.args[0], p.args[1] if len(p.args) > 1 else None)
        if o == 'pk': return mval(v, p.args[0], p.args[1])
        if o == 'pi': return at(v, p.args[0], p.args[1] if len(p.args) > 1 else 'u8')
        if o == 'pvf': return self.vfield(v, p.args[0], p.args[1], p.args[2])
        raise Unsupported('projection ' + o)

    def vfield(self, v, vi, i, ty, ety=None):
        if v.op == 'ite':
            return ite(v.args[0], self.vfield(v.args[1], vi, i, ty, ety), self.vfield(v.args[2], vi, i, ty, ety))
        if v.op != 'en' and ety is not None:
            v = self.expand(v, ety)
        if v.op == 'en':
            for a, g, fs in en_alts(v):
                if a == vi:
                    if i >= len(fs): raise Unsupported('variant field')
                    return fs[i]
            return app('unreach', sort='obj') if True else None
        return self.typed(f'.v{vi}.{i}', (v,), ty)

    def update(self, old, projs, v):
        if not projs: return v
        p = projs[0]; o = p.op
        if old is not None and old.op == 'ite' and o != 'pk':
            return ite(old.args[0], self.update(old.args[1], projs, v), self.update(old.args[2], projs, v))
        if o == 'pf':
            i = p.args[0]
            if old is None or old.op not in ('tup', 'arr', 'box'):
                if old is not None and old.op == 'app':
                    raise Unsupported('field update of ' + show(old)[:60])
                n = i + 1
                fs = [None] * n
                old = tup(*[app('undef', sort='obj')] * n)
            fs = list(old.args)
            while len(fs) <= i: fs.append(app('undef', sort='obj'))
            fs[i] = self.update(fs[i], projs[1:], v)
            return mk(old.op, *fs)
        if o == 'pvf':
            vi, i = p.args[0], p.args[1]
            old = old if old.op == 'en' else self.expand(old, p.args[3])
            out = []
            for a, g, fs in en_alts(old):
                if a == vi:
                    fs = list(fs); fs[i] = self.update(fs[i], projs[1:], v)
                out.append((a, g, tuple(fs)))
            return mken(out)
        if o == 'pk':
            k, vty = p.args
            return mins(old, k, self.update(mval(old, k, vty), projs[1:], v))
        if o == 'pi':
            idx = p.args[0]
            ety = p.args[1] if len(p.args) > 1 else 'u8'
            nv = self.update(at(old, idx, ety), projs[1:], v) if len(projs) > 1 else v
            if old.op == 'arr' and idx.op == 'int':
                a = list(old.args); a[idx.args[0]] = nv
                return mk('arr', *a)
            if old.op == 'cat' and idx.op == 'int':
                pass
            return app('upd', old, idx, nv, sort='seq')
        raise Unsupported('update ' + o)

    def store(self, st, ref, v, ty=None):
        o = ref.op
        if o == 'ref':
            c = ref.args[0]
            st[c] = self.update(st.get(c), ref.args[1:], v)
        elif o == 'ite':
            g = ref.args[0]
            for r, gg in ((ref.args[1], g), (ref.args[2], bnot(g))):
                old = self.load(st, r, ty)
                self.store(st, r, ite(gg, v, old), ty)
        elif o in ('rv', 'box'):
            raise Unsupported('store through shared reference')
        elif o == 'sref':
            self.store(st, ref.args[0], app('updslice', self.load(st, ref.args[0]), ref.args[1], ref.args[2], v, sort='seq'))
        else:
            self.event('deref', ref, True)
            self.event('rawwrite', ref, v)
            st[self.cellof(st, ref, ty or '?')] = v

    def event(self, kind, *payload):
        self.events.append((kind, self.pc, payload, self.span, self.stack[-1] if self.stack else '?'))

    def obligation(self, pc, ok, kind, extra=None):
        if ok is TRUE: return
        if band(pc, bnot(ok)) is FALSE: return
        self.obs.append(Ob(pc, ok, kind, self.span, self.stack[-1] if self.stack else '?', extra))

    # ---------------------------------------------------------------- places
    def place(self, fr, st, pl, want='val'):
        """want='val' -> value ; 'ref' -> reference term to the place"""
        loc = pl[0]
        cell = f'{fr.id}:{loc}'
        projs = pl[1:]
        ty = fr.locals[loc][0]
        base = mk('ref', cell)
        isref = True          # `base` denotes a memory path; else `val` holds a value
        val = None
        i = 0
        while i < len(projs):
            p = projs[i]
            if p == '*':
                ptr = self.load(st, base) if isref else val
                dty = self.deref_ty(ty)
                if dty == ty:
                    t = self.T(ty)
                    if t and t.get('targs'): dty = t['targs'][0]
                ty = dty
                if ptr.op == 'sref' and ptr.args[0].op == 'ref':
                    # a sub-slice of something mutable: keeps its identity
                    if i + 1 == len(projs) and want == 'ref':
                        self.place_ty = ty
                        return ptr
                    q = projs[i + 1] if i + 1 < len(projs) else None
                    if q and q[0] == 'i':
                        ety = self.elem_ty(ty)
                        isref, base, val = True, self.ext(ptr.args[0], mk('pi', add(ptr.args[1], st[f'{fr.id}:{q[1]}']), ety)), None
                        ty = ety
                        i += 2
                        continue
                r = self.deref(st, ptr, ty)
                isref, base, val = r
            elif p[0] == 'f':
                fty = p[2] if len(p) > 2 else '?'
                if isref:
                    base = self.ext(base, mk('pf', p[1], fty))
                else:
                    val = self.fld(val, p[1], fty)
                ty = fty
            elif p[0] == 'd':
                # downcast followed by a field
                vi = p[1]
                if i + 1 < len(projs) and projs[i + 1][0] == 'f':
                    q = projs[i + 1]
                    if isref:
                        base = self.ext(base, mk('pvf', vi, q[1], q[2], ty))
                    else:
                        val = self.vfield(val, vi, q[1], q[2], ty)
                    ty = q[2]
                    i += 1
                # else: downcast alone changes nothing
            elif p[0] == 'i':
                idx = st[f'{fr.id}:{p[1]}']
                ety = self.elem_ty(ty)
                if isref: base = self.ext(base, mk('pi', idx, ety))
                else: val = at(val, idx, ety)
                ty = ety
            elif p[0] == 'c':
                off, minlen, fromend = p[1], p[2], p[3]
                ety = self.elem_ty(ty)
                cur = self.load(st, base) if isref else val
                idx = sub(seqlen(cur), I(off)) if fromend else I(off)
                if isref: base = self.ext(base, mk('pi', idx, ety))
                else: val = at(cur, idx, ety)
                ty = ety
            elif p[0] == 's':
                frm, to, fromend = p[1], p[2], p[3]
                cur = self.load(st, base) if isref else val
                hi = sub(seqlen(cur), I(to)) if fromend else I(to)
                val = slice_(cur, I(frm), hi); isref = False
            else:
                raise Unsupported('place projection ' + str(p))
            i += 1
        self.place_ty = ty
        if want == 'val':
            if not isref: return val
            return self.load2(st, base, ty)
        if isref: return base
        return rv(val)

    def load2(self, st, base, ty):
        # field of symbolic enum inside a path needs the enum's type: pvf carries it
        v = st.get(base.args[0]) if base.op == 'ref' else None
        if base.op == 'ref':
            if v is None: raise Unsupported('read of uninitialised cell')
            for p in base.args[1:]:
                if p.op == 'pvf':
                    v = self.vfield(v, p.args[0], p.args[1], p.args[2], p.args[3])
                else:
                    v = self.proj(v, p)
            return v
        return self.load(st, base, ty)

    def ext(self, base, p):
        if base.op == 'ref': return mk('ref', *base.args, p)
        if base.op == 'ite': return ite(base.args[0], self.ext(base.args[1], p), self.ext(base.args[2], p))
        raise Unsupported('path through ' + base.op)

    def deref(self, st, ptr, ty):
        """-> (isref, base, val)"""
        o = ptr.op
        if o == 'ref': return True, ptr, None
        if o in ('rv', 'box'): return False, None, ptr.args[0]
        if o == 'ite':
            a = self.deref(st, ptr.args[1], ty); b = self.deref(st, ptr.args[2], ty)
            if a[0] and b[0]: return True, ite(ptr.args[0], a[1], b[1]), None
            va = self.load(st, a[1], ty) if a[0] else a[2]
            vb = self.load(st, b[1], ty) if b[0] else b[2]
            return False, None, ite(ptr.args[0], va, vb)
        if o == 'sref':
            return False, None, self.load(st, ptr)
        self.event('deref', ptr, None)
        c = self.cellof(st, ptr, ty)
        return True, mk('ref', c), None

    def elem_ty(self, ty):
        t = self.T(ty)
        if t and t['kind'] in ('array', 'slice'): return t['to']
        if t and t.get('targs'): return t['targs'][0]
        return 'u8'

    # ---------------------------------------------------------------- constants / operands
    def const(self, c):
        ty = c['ty']
        if 'fn' in c: return mk('fnv', json.dumps(c['fn'].get('key')))
        if 'bits' in c:
            n = int(c['bits'])
            if ty == 'bool': return G(TRUE if n else FALSE)
            if ty == 'f64':
                return fconst(tm.struct.unpack('>d', n.to_bytes(8, 'big'))[0])
            if ty == 'f32':
                return fconst(tm.struct.unpack('>f', n.to_bytes(4, 'big'))[0])
            if ty in INT:
                lo, hi = INT[ty]
                if lo < 0 and n > hi: n -= (hi - lo + 1)
                return I(n)
            t = self.T(ty)
            if t and t['kind'] == 'ptr':
                return app('nullptr', sort='obj') if n == 0 else app('ptrconst', I(n), sort='obj')
            return I(n)
        if 'str' in c: return rv(mk('str', c['str']))
        if 'ref' in c: return rv(self.const(c['ref']))
        if 'elems' in c:
            es = [self.const(e) for e in c['elems']]
            return mk('arr', *es)
        if 'enumbits' in c:
            n = int(c['enumbits'])
            t = self.T(ty)
            for vi, v in enumerate(t['variants']):
                if int(v['discr']) == n: return mken([(vi, TRUE, ())])
        if 'variant' in c:
            return mken([(c['variant'], TRUE, tuple(self.const(f) for f in c.get('fields', [])))])
        if 'fields' in c:
            t = self.T(ty)
            fs = tuple(self.const(f) for f in c['fields'])
            return tup(*fs)
        if c.get('zst'):
            t = self.T(ty)
            if t and t['kind'] == 'array' and t.get('len') == 0: return mk('arr')
            if t and t['kind'] == 'enum' and len(t['variants']) == 1: return mken([(0, TRUE, ())])
            if t and t['kind'] == 'ref': return rv(mk('arr'))
            return UNIT
        if c.get('name') and c['name'] in self.p.consts:
            pass
        return self.typed('const:' + json.dumps(c, sort_keys=True)[:200], (), ty)

    def operand(self, fr, st, op):
        k = op[0]
        if k in ('cp', 'mv'): return self.place(fr, st, op[1])
        if k == 'k': return self.const(op[1])
        raise Unsupported('operand ' + str(op)[:80])

    def op_ty(self, fr, op):
        if op[0] == 'k': return op[1]['ty']
        pl = op[1]
        ty = fr.locals[pl[0]][0]
        for p in pl[1:]:
            if p == '*': ty = self.deref_ty(ty)
            elif p[0] == 'f': ty = p[2]
            elif p[0] in ('i', 'c'): ty = self.elem_ty(ty)
        return ty

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rvl, dty):
        k = rvl[0]
        if k == 'use': return self.operand(fr, st, rvl[1])
        if k == 'ptr':
            # raw pointers keep the identity of what they point to
            pl = rvl[-1]
            if len(pl) > 1 and pl[-1] == '*': return self.place(fr, st, pl[:-1])
            return self.place(fr, st, pl, 'ref')
        if k == 'ref':
            mut = rvl[1]; pl = rvl[2]
            if mut:
                return self.place(fr, st, pl, 'ref')
            # shared: snapshot
            v = self.place(fr, st, pl)
            return rv(v)
        if k == 'repeat':
            v = self.operand(fr, st, rvl[1])
            n = rvl[2]
            if isinstance(n, int) or (isinstance(n, str) and n.isdigit()):
                n = int(n)
                if n <= 4096: return mk('arr', *[v] * n)
            return app('rept', v, I(n), sort='seq')
        if k == 'discr':
            pl = rvl[1]
            v = self.place(fr, st, pl)
            ty = self.place_ty
            return self.discr(v, ty)
        if k == 'cast': return self.cast(rvl[1], self.operand(fr, st, rvl[2]), rvl[3] if len(rvl) > 3 else dty, self.op_ty(fr, rvl[2]))
        if k == 'bin':
            a = self.operand(fr, st, rvl[2]); b = self.operand(fr, st, rvl[3])
            return self.binop(rvl[1], a, b, self.op_ty(fr, rvl[2]), self.op_ty(fr, rvl[3]))
        if k == 'un':
            a = self.operand(fr, st, rvl[2])
            ty = self.op_ty(fr, rvl[2])
            if rvl[1] == 'Not':
                if ty == 'bool': return G(bnot(asB(a)))
                lo, hi = INT[ty]
                return sub(I(-1), a) if lo < 0 else sub(I(hi), a)
            if rvl[1] == 'Neg':
                if ty in ('f64', 'f32'): return fop('neg', a)
                return scale(a, -1)
            if rvl[1] == 'PtrMetadata':
                return self.meta(st, a)
            raise Unsupported('unop ' + rvl[1])
        if k == 'agg':
            kind = rvl[1]; ops = [self.operand(fr, st, o) for o in rvl[2]]
            if kind[0] == 'tuple': return tup(*ops)
            if kind[0] == 'array': return mk('arr', *ops)
            if kind[0] == 'closure': return tup(*ops)
            if kind[0] == 'adt':
                ty = kind[1]; vi = kind[2]
                t = self.T(ty)
                if t is None: raise Unsupported('aggregate ' + ty)
                if t['kind'] == 'enum':
                    return mken([(vi, TRUE, tuple(ops))])
                if t['kind'] == 'union': raise Unsupported('union')
                return tup(*ops)
            if kind[0] == 'rawptr':
                return app('fatptr', *ops, sort='obj')
            raise Unsupported('aggregate ' + str(kind))
        if k == 'len':
            return seqlen(self.place(fr, st, rvl[1]))
        if k == 'nullary':
            raise Unsupported('nullary')
        raise Unsupported('rvalue ' + str(rvl)[:100])

    def meta(self, st, a):
        if a.op == 'rv': return seqlen(a.args[0])
        if a.op == 'ref': return seqlen(self.load(st, a))
        if a.op == 'ite': return ite(a.args[0], self.meta(st, a.args[1]), self.meta(st, a.args[2]))
        if a.op == 'app' and a.args[0] in ('fatptr', 'slicptr'): return a.args[2]
        return seqlen(self.load(st, a, '[u8]'))

    def discr(self, v, ty):
        t = self.T(ty)
        if v.op == 'rv': v = v.args[0]
        e = self.expand(v, ty)
        r = None
        for vi, g, fs in reversed(en_alts(e)):
            d = I(int(t['variants'][vi]['discr'])) if t and t['kind'] == 'enum' else I(vi)
            r = d if r is None else ite(g, d, r)
        if r is None: raise Unsupported('empty enum')
        return r

    def cast(self, kind, v, ty, fty):
        if kind == 'IntToInt':
            if fty == 'bool':
                return ite(asB(v), I(1), I(0))
            if v.op == 'g': return ite(v.args[0], I(1), I(0))
            if ty not in INT:
                return v
            if fty not in INT and self.is_enum(fty):
                v = self.discr(v, fty)
            lo, hi = INT[ty]
            l, h = interval(v)
            if l is not None and h is not None and l >= lo and h <= hi: return v
            if fty in INT and INT[fty][0] >= lo and INT[fty][1] <= hi:
                return v       # widening (value known to be in range of its own type)
            bits = (hi - lo + 1).bit_length() - 1
            w = wrapn(v, bits)
            if lo < 0:
                return ite(le(w, I(hi)), w, sub(w, I(1 << bits)))
            return w
        if kind == 'IntToFloat': return fop('i2f32' if ty == 'f32' else 'i2f', v)
        if kind == 'FloatToInt':
            lo, hi = INT[ty]
            if v.op == 'fconst':
                f = fval(v)
                if f != f: return I(0)
                return I(max(lo, min(hi, int(f) if abs(f) != float('inf') else (hi if f > 0 else lo))))
            return app('f2i', v, ty, lo=lo, hi=hi)
        if kind == 'FloatToFloat':
            if ty == 'f32': return fop('tof32', v)
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind in ('MutToConst', 'PtrToPtr'):
            if 'Unsize' in kind and v.op == 'app': return v
            return v
        if kind == 'Transmute':
            if v.op == 'app' or v.op == 'rv' or v.op == 'ref' or v.op == 'ite': return v
            return v
        if kind == 'PointerExposeProvenance' or kind == 'PointerExposeAddress':
            return app('addr', v, lo=0, hi=U64)
        return app('cast', kind, v, ty, sort='obj')

    def binop(self, op, a, b, ty, tyb=None):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = self.compare(op, a, b, ty)
            return G(r)
        if ty in ('f64', 'f32'):
            n = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}[op]
            return fop(n, a, b) if ty == 'f64' else fop('tof32', fop(n, a, b))
        if ty == 'bool':
            x, y = asB(a), asB(b)
            return G({'BitAnd': band, 'BitOr': bor_, 'BitXor': bxor}[op](x, y))
        if ty not in INT:
            if op == 'Offset': return app('ptroff', a, b, sort='obj')
            raise Unsupported(f'binop {op} on {ty}')
        lo, hi = INT[ty]
        bits = (hi - lo + 1).bit_length() - 1
        if op.endswith('WithOverflow'):
            o = op[:3]
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[o](a, b)
            ok = TRUE
            if o != 'Add' or lo < 0: ok = band(ok, ge(r, I(lo)))
            if o != 'Sub' or lo < 0: ok = band(ok, le(r, I(hi)))
            return tup(r, G(bnot(ok)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[op[:3]](a, b)
            if 'Unchecked' in op or lo < 0: return r
            return wrapn(r, bits)
        if op == 'Div':
            if lo < 0:
                return app('sdiv', a, b, lo=lo, hi=hi) if not (a.op == 'int' and b.op == 'int') else I(abs(a.args[0]) // abs(b.args[0]) * (1 if (a.args[0] < 0) == (b.args[0] < 0) else -1))
            return tdiv(a, b)
        if op == 'Rem':
            if lo < 0: return app('srem', a, b, lo=lo, hi=hi)
            return tmod(a, b)
        if op == 'BitAnd':
            if lo < 0:
                if a.op == 'int' and b.op == 'int': return I(a.args[0] & b.args[0])
                # a mask that is not negative keeps bits of the two's complement
                if b.op == 'int' and b.args[0] >= 0: return bitand(wrapn(a, bits), b)
                if a.op == 'int' and a.args[0] >= 0: return bitand(a, wrapn(b, bits))
                return app('sand', a, b, lo=lo, hi=hi)
            return bitand(a, b)
        if op == 'BitOr': return bitor(a, b)
        if op == 'BitXor': return bitxor(a, b)
        if op in ('Shl', 'ShlUnchecked'):
            return tshl(a, b, bits)
        if op in ('Shr', 'ShrUnchecked'):
            return tshr(a, b)
        if op == 'Cmp':
            return mken([(0, lt(a, b), ()), (1, eq(a, b), ()), (2, lt(b, a), ())])
        raise Unsupported('binop ' + op)

    def compare(self, op, a, b, ty):
        while a.op == 'rv' or b.op == 'rv':
            if a.op == 'rv': a = a.args[0]
            if b.op == 'rv': b = b.args[0]
        if ty in ('f64', 'f32') or sort_of(a) == 'float':
            return {'Eq': lambda: feq(a, b), 'Ne': lambda: bnot(feq(a, b)), 'Lt': lambda: flt(a, b), 'Le': lambda: fle(a, b),
                    'Gt': lambda: flt(b, a), 'Ge': lambda: fle(b, a)}[op]()
        if a.op == 'g' or b.op == 'g' or ty == 'bool':
            x, y = asB(a), asB(b)
            return {'Eq': biff(x, y), 'Ne': bxor(x, y), 'Lt': band(bnot(x), y), 'Gt': band(x, bnot(y)),
                    'Le': bimp(x, y), 'Ge': bimp(y, x)}[op]
        if a.op == 'en' or b.op == 'en':
            ea, eb = self.expand(a, ty), self.expand(b, ty)
            r = FALSE
            for v1, g1, f1 in en_alts(ea):
                for v2, g2, f2 in en_alts(eb):
                    if v1 == v2:
                        e = band(g1, g2)
                        for x, y in zip(f1, f2): e = band(e, self.compare('Eq', x, y, '?'))
                        r = bor_(r, e)
            if op == 'Eq': return r
            if op == 'Ne': return bnot(r)
            raise Unsupported('enum order')
        if a.op == 'tup' and b.op == 'tup':
            e = TRUE
            for x, y in zip(a.args, b.args): e = band(e, self.compare('Eq', x, y, '?'))
            if op == 'Eq': return e
            if op == 'Ne': return bnot(e)
            # lexicographic
            r = FALSE; pre = TRUE
            for x, y in zip(a.args, b.args):
                r = bor_(r, band(pre, self.compare('Lt', x, y, '?')))
                pre = band(pre, self.compare('Eq', x, y, '?'))
            return {'Lt': r, 'Le': bor_(r, e), 'Gt': bnot(bor_(r, e)), 'Ge': bnot(r)}[op]
        if sort_of(a) == 'int' or sort_of(b) == 'int':
            return {'Eq': eq, 'Ne': lambda x, y: bnot(eq(x, y)), 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return bnot(eq(a, b))
        return pred('cmp' + op, a, b)

    # ---------------------------------------------------------------- functions
    def run(self, body, args, st=None, pc=TRUE):
        """evaluate a body on argument terms; returns (pc_out, st, ret)"""
        st = dict(st or {})
        return self.call_body(body, args, st, pc)

    def call_body(self, body, args, st, pc):
        if self.stack.count(body['key']) > 3: raise Recursion(body, pc)
        if len(self.stack) > self.max_inline: raise Unsupported('recursion through ' + body['key'])
        self.visited.add(body['key'])
        self.nframe += 1
        fr = Frame(self.nframe, body)
        st = dict(st)
        if body.get('spread') is not None and len(args) < body['argc']:
            pass
        if len(args) != body['argc']:
            raise Unsupported(f"arity {len(args)} vs {body['argc']} for {body['key']}")
        for i, a in enumerate(args):
            st[f'{fr.id}:{i + 1}'] = a
        st[f'{fr.id}:0'] = app('undef', sort='obj') if fr.locals[0][0] != '()' else UNIT
        self.stack.append(body['key'])
        saved = self.span if hasattr(self, 'span') else ''
        try:
            exits = self.region(fr, fr.all_blocks, {0: (pc, st)}, None)
        finally:
            self.stack.pop()
            self.span = saved
        r = exits.get('ret')
        if r is None:
            return FALSE, st, UNIT
        pc2, st2 = r
        ret = st2.get(f'{fr.id}:0', UNIT)
        pre = f'{fr.id}:'
        st2 = {k: v for k, v in st2.items() if not k.startswith(pre)}
        return pc2, st2, ret

    def merge(self, a, b):
        """(pc, st) join"""
        if a is None: return b
        if b is None: return a
        p1, s1 = a; p2, s2 = b
        if p1 is FALSE: return b
        if p2 is FALSE: return a
        p = bor_(p1, p2)
        g = restrict(p1, p)
        out = {}
        for k, v in s1.items():
            w = s2.get(k)
            if w is None or w is v: out[k] = v
            elif v.op == 'app' and v.args[0] == 'undef': out[k] = w
            elif w.op == 'app' and w.args[0] == 'undef': out[k] = v
            else: out[k] = ite(g, v, w)
        for k, w in s2.items():
            if k not in s1: out[k] = w
        return p, out

    def region(self, fr, blocks, entries, header):
        """blocks: frozenset; entries: {bb: (pc,st)}; header: loop header whose in-edges are back edges.
        returns {target or 'ret' or 'back': (pc, st)}"""
        sccs = fr.sccs(blocks, header)
        inc = dict(entries)
        exits = {}
        for comp_ in sccs:
            if len(comp_) == 1 and not fr.selfloop(comp_[0], header):
                b = comp_[0]
                cur = inc.pop(b, None)
                if cur is None or cur[0] is FALSE: continue
                outs = self.block(fr, b, cur)
            else:
                S = frozenset(comp_)
                heads = [b for b in comp_ if b in inc]
                if not heads: continue
                if len(heads) > 1: raise Unsupported('irreducible loop')
                h = heads[0]
                cur = inc.pop(h)
                if cur[0] is FALSE: continue
                outs = self.loop(fr, S, h, cur)
            for tgt, ps in outs:
                if ps is None or ps[0] is FALSE: continue
                if tgt == header and header is not None:
                    exits['back'] = self.merge(exits.get('back'), ps)
                elif tgt == 'ret' or tgt not in blocks:
                    exits[tgt] = self.merge(exits.get(tgt), ps)
                else:
                    inc[tgt] = self.merge(inc.get(tgt), ps)
        return exits

    def block(self, fr, b, cur):
        pc, st = cur
        st = dict(st)
        bl = fr.body['blocks'][b]
        for s in bl['s']:
            self.pc = pc
            if s[0] == '=':
                self.span = s[3]
                dty = fr.locals[s[1][0]][0] if len(s[1]) == 1 else (s[1][-1][2] if isinstance(s[1][-1], list) and s[1][-1][0] == 'f' else '?')
                v = self.rvalue(fr, st, s[2], dty)
                self.assign(fr, st, s[1], v)
            elif s[0] == 'sd':
                raise Unsupported('set discriminant')
            elif s[0] == '?':
                raise Unsupported('statement ' + str(s[1])[:60])
        self.span = bl.get('sp') or getattr(self, 'span', '')
        self.pc = pc
        t = bl['t']; k = t[0]
        if k == 'goto': return [(t[1], (pc, st))]
        if k == 'ret': return [('ret', (pc, st))]
        if k in ('unreachable', 'resume', 'abort'): return []
        if k == 'drop':
            self.do_drop(fr, st, pc, t)
            return [(t[2], (pc, st))]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            ty = t[4] if len(t) > 4 else '?'
            outs = []
            rest = TRUE
            for val, bb in t[2]:
                n = int(val)
                if ty in INT and INT[ty][0] < 0 and n > INT[ty][1]: n -= INT[ty][1] - INT[ty][0] + 1
                if ty == 'bool' or v.op == 'g':
                    g = asB(v)
                    g = g if n else bnot(g)
                else:
                    g = eq(v, I(n))
                g = restrict(g, pc)
                outs.append((bb, (band(pc, rest, g), dict(st))))
                rest = band(rest, bnot(g))
            if t[3] is not None:
                outs.append((t[3], (band(pc, rest), dict(st))))
            lp = self.loops[-1] if self.loops else None
            if lp is not None and lp.frame is fr and b in lp.S and any(x not in lp.S for x in [y[1] for y in t[2]] + [t[3]] if x is not None):
                live = [bb for bb, ps in outs if ps[0] is not FALSE]
                if len(set(live)) == 1: lp.lit = True
            # unreachable targets: their guard is infeasible by construction
            res = []
            for bb, ps in outs:
                if ps[0] is FALSE: continue
                if fr.body['blocks'][bb]['t'][0] == 'unreachable' and not fr.body['blocks'][bb]['s']: continue
                res.append((bb, ps))
            return res
        if k == 'assert':
            v = asB(self.operand(fr, st, t[1]))
            ok = v if t[2] else bnot(v)
            ok = restrict(ok, pc)
            kind = t[3]
            if kind and kind[0] == 'other':
                if 'Misaligned' in kind[1] or 'NullPointer' in kind[1]:
                    return [(t[4], (pc, st))]
            self.obligation(pc, ok, 'panic:' + ':'.join(str(x) for x in kind[:2] if isinstance(x, str)))
            return [(t[4], (band(pc, ok), st))]
        if k == 'call':
            return self.do_call(fr, st, pc, t)
        raise Unsupported('terminator ' + k)

    def assign(self, fr, st, pl, v):
        if len(pl) == 1:
            st[f'{fr.id}:{pl[0]}'] = v
            return
        r = self.place(fr, st, pl, 'ref')
        self.store(st, r, v, self.place_ty)

    def do_drop(self, fr, st, pc, t):
        ty = t[3] if len(t) > 3 else '?'
        tt = self.T(ty)
        if tt and (tt.get('path') or '').startswith(('std::boxed', 'std::ffi', 'std::mem')):
            try:
                v = self.place(fr, st, t[1])
            except Unsupported:
                return
            if not (v.op == 'app' and v.args[0] == 'undef'):
                self.event('drop', ty, v)

    def do_call(self, fr, st, pc, t):
        fnop, ops, dest, tgt, argtys, dty = t[1:7]
        args = [self.operand(fr, st, o) for o in ops]
        fn = fnop.get('fn') if isinstance(fnop, dict) else None
        if fn is None:
            raise Unsupported('indirect call')
        c = Call(self, st, pc, fn, args, argtys, dty)
        c.frame = fr
        ret = self.dispatch(c)
        if c.pc is FALSE or tgt is None:
            if tgt is None and c.pc is not FALSE:
                self.pc = c.pc
                self.obligation(c.pc, FALSE, 'panic:call:' + fn['path'])
            return []
        st = c.st
        if c.skip is not FALSE:
            lp = self.loops[-1] if self.loops else None
            if lp is None or lp.frame is not fr: raise Unsupported('filtering iterator outside a loop')
            lp.skips.append((band(c.pc, c.skip), dict(st)))
            c.pc = band(c.pc, bnot(c.skip))
        if ret is None: ret = UNIT
        self.pc = c.pc
        self.assign(fr, st, dest, ret)
        return [(tgt, (c.pc, st))]

    def dispatch(self, c):
        fn = c.fn
        self.calls += 1
        for m, h in self.contracts:
            if m(fn):
                r = h(c)
                if r is not NotImplemented:
                    return r
        if fn.get('ctor') is not None and not fn.get('body'):
            return self.ctor(c)
        if fn.get('body') and fn.get('key') in self.p.bodies:
            return self.inline(c, fn['key'], c.args)
        import stdm
        return stdm.std_call(c)

    def ctor(self, c):
        t = self.T(c.ty)
        ct = c.fn['ctor']
        if t and t['kind'] == 'enum':
            for vi, v in enumerate(t['variants']):
                if c.fn['path'].endswith('::' + v['name']): return mken([(vi, TRUE, tuple(c.args))])
        return tup(*c.args)

    def inline(self, c, key, args):
        body = self.p.bodies[key]
        if body.get('spread') is not None and len(args) != body['argc'] and args and args[-1].op == 'tup':
            args = list(args[:-1]) + list(args[-1].args)
        pc, st, ret = self.call_body(body, args, c.st, c.pc)
        c.pc = pc; c.st = st
        return ret

    # ---------------------------------------------------------------- loops
    def loop(self, fr, S, h, cur):
        pc0, st0 = cur
        def body(st, pc):
            lp = Loop(); lp.frame = fr; lp.S = S
            self.loops.append(lp)
            try:
                ex = self.region(fr, S, {h: (pc, st)}, h)
            finally:
                self.loops.pop()
            back = ex.pop('back', None)
            for s in lp.skips: back = self.merge(back, s)
            self.last_loop = lp
            return back, list(ex.items())
        return self.run_loop(body, pc0, st0, tag=f"{fr.body['key']}")

    UNROLL = 136

    def run_loop(self, body, pc0, st0, tag=''):
        if self.loop_hook is not None:
            r = self.loop_hook(self, body, pc0, st0)
            if r is not None: return r
        nobs, nev = len(self.obs), len(self.events)
        span0 = getattr(self, 'span', '')
        # 1. symbolic trip count: closed form; literal trip count: unfold
        err = None
        try:
            r = self.summarise(body, pc0, st0, tag)
            if r is not None: return r
        except Unsupported as e:
            err = e
        del self.obs[nobs:]; del self.events[nev:]
        self.span = span0
        st, pc = st0, pc0
        exits = {}
        for n in range(self.UNROLL):
            back, exs = body(dict(st), pc)
            lp = self.last_loop
            for t, ps in exs:
                exits[t] = self.merge(exits.get(t), ps)
            if back is None or back[0] is FALSE:
                return list(exits.items())
            if err is not None and (lp.sym or not lp.lit): break
            pc, st = back
        if err is None: raise Unsupported('loop does not finish within its literal trip count')
        if 'without a recognised trip count' in str(err):
            # the loop runs until its first exiting round, whichever that is
            del self.obs[nobs:]; del self.events[nev:]
            self.span = span0
            return self.summarise(body, pc0, st0, tag, opaque=True)
        raise err

    def leaves(self, a, b, path, out):
        if a is b: return
        if a.op == b.op and a.op in ('tup', 'iter', 'src', 'usrc', 'stage', 'rv', 'arr', 'box') and len(a.args) == len(b.args) \
                and all(isinstance(x, T) or x == y for x, y in zip(a.args, b.args)):
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                if isinstance(x, T): self.leaves(x, y, path + (i,), out)
            return
        out.append(path)

    def tsimp(self, g, ctx):
        """remove the atoms of g that the arithmetic domain decides under ctx"""
        lits = tm.must_literals(ctx)
        for a in sorted(batoms(g), key=lambda x: x.key):
            if a.op != 'le': continue
            if arith.infeasible(lits + [(a, True)]): g = cofactor(g, a, False)
            elif arith.infeasible(lits + [(a, False)]): g = cofactor(g, a, True)
        return g

    def rs(self, t, care, memo=None):
        """simplify a value that is only used under the condition `care`"""
        if memo is None: memo = {}
        r = memo.get(t)
        if r is not None: return r
        o = t.op
        if o == 'ite':
            g = restrict(t.args[0], care)
            if g is TRUE: r = self.rs(t.args[1], care, memo)
            elif g is FALSE: r = self.rs(t.args[2], care, memo)
            else:
                a = self.rs(t.args[1], band(care, g)); b = self.rs(t.args[2], band(care, bnot(g)))
                r = t if (g is t.args[0] and a is t.args[1] and b is t.args[2]) else ite(g, a, b)
        elif o == 'lin':
            r = I(t.args[0])
            for a, k in t.args[1]: r = add(r, scale(self.rs(a, care, memo), k))
        elif o == 'g':
            r = G(restrict(t.args[0], care))
        elif o in ('tup', 'iter', 'src', 'usrc', 'stage', 'rv', 'arr', 'box', 'cat'):
            na = [self.rs(x, care, memo) if isinstance(x, T) else x for x in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else (cat(*na) if o == 'cat' else mk(o, *na))
        elif o == 'app' and t.args[0] == 'seqite':
            g = restrict(t.args[1].args[0], care)
            if g is TRUE: r = self.rs(t.args[2], care, memo)
            elif g is FALSE: r = self.rs(t.args[3], care, memo)
            else: r = seq_ite(g, self.rs(t.args[2], band(care, g)), self.rs(t.args[3], band(care, bnot(g))))
        elif o == 'app' and t.args[0] in ('msetg', 'mzerog'):
            args = list(t.args)
            args[1] = self.rs(args[1], care, memo)
            for i in range(2, len(args)):
                if isinstance(args[i], T): args[i] = self.rs(args[i], care, memo)
            r = t if all(x is y for x, y in zip(args, t.args)) else tm._builders[args[0]](*args[1:])
        elif o == 'en':
            r = mken([(a, restrict(g, care), fs) for a, g, fs in en_alts(t)])
        else:
            r = t
        memo[t] = r
        return r

    def getp(self, v, path):
        for i in path: v = v.args[i]
        return v
    def setp(self, v, path, x):
        if not path: return x
        a = list(v.args)
        a[path[0]] = self.setp(a[path[0]], path[1:], x)
        return mk(v.op, *a)

    def summarise(self, body, pc0, st0, tag, opaque=False):
        L = {}           # (cell, path) -> mu symbol
        mus = {}
        nobs, nev = len(self.obs), len(self.events)
        for rounds in range(12):
            st = dict(st0)
            for (c, p), m in L.items():
                st[c] = self.setp(st[c], p, m)
            del self.obs[nobs:]; del self.events[nev:]
            back, exs = body(dict(st), pc0)
            if back is None or back[0] is FALSE:
                # body never loops back
                return exs
            new = False
            for c, v in st.items():
                w = back[1].get(c)
                if w is None or w is v: continue
                out = []
                self.leaves(v, w, (), out)
                for p in out:
                    if (c, p) in L: continue
                    # coarser leaf replaces finer ones
                    for q in [q for q in L if q[0] == c and q[1][:len(p)] == p]: del L[q]
                    init = self.getp(st0[c], p)
                    if init.op == 'app' and init.args[0] == 'undef': 
                        continue
                    so = sort_of(init)
                    if so == 'obj':
                        so2 = sort_of(self.getp(w, p))
                        if so2 != 'obj' and init.op == 'sym': so = so2
                    if init.op == 'g':
                        m = G(pred('mub', fresh('mu', sort='obj')))
                    else:
                        m = fresh('mu', None, None, so)
                    L[(c, p)] = m
                    new = True
            if not new: break
        else:
            raise Unsupported('loop state does not stabilise')
        # cells that only exist / change from undef are dead at the header: ignore
        # 2. affine leaves
        k = fresh('k', 0, MAXLEN)
        closed = {}
        pending = dict(L)
        inits = {cp: self.getp(st0[cp[0]], cp[1]) for cp in L}
        bst = back[1]
        upd = {cp: self.rs(self.getp(bst[cp[0]], cp[1]), back[0]) for cp in L}
        musyms = set(L.values())
        def mu_of(t):
            ss = subterms(t)
            r = set()
            for m in musyms:
                if m.op == 'g':
                    a = m.args[0].a
                    if a in ss: r.add(m)
                elif m in ss: r.add(m)
            return r
        for cp, m in L.items():
            if m.op == 'g' or sort_of(inits[cp]) != 'int': continue
            d = sub(upd[cp], m)
            if not mu_of(d):
                if d.op == 'int' or not occurs(k, d):
                    closed[cp] = add(inits[cp], mul(k, d))
        # re-evaluate the body in closed form for the affine part, others still mu
        def start(closed):
            st = dict(st0)
            for cp, m in L.items():
                st[cp[0]] = self.setp(st[cp[0]], cp[1], closed.get(cp, m))
            return st
        for rounds in range(8):
            del self.obs[nobs:]; del self.events[nev:]
            st = start(closed)
            back, exs = body(dict(st), pc0)
            if back is None: return exs
            n = self.control(exs, pc0, k)
            if n is not None and n[2].op == 'int' and n[2].args[0] <= self.UNROLL - 2: return None
            upd = {cp: self.rs(self.getp(back[1][cp[0]], cp[1]), back[0]) for cp in L}
            progress = False
            open_ = [cp for cp in L if cp not in closed]
            for cp in open_:
                m = L[cp]
                r = self.closed_leaf(cp, m, inits[cp], upd[cp], k, mu_of, musyms)
                if r is not None:
                    closed[cp] = r; progress = True
            if not progress: break
        open_ = [cp for cp in L if cp not in closed]
        # 3. remaining leaves: folds
        if open_:
            # group mutually dependent leaves
            deps = {cp: set(q for q in open_ if L[q] in mu_of(upd[cp])) for cp in open_}
            for cp in open_:
                if deps[cp] <= {cp}:
                    l = lam(k, upd[cp], L[cp]) if L[cp].op != 'g' else None
                    if l is None: raise Unsupported('boolean loop state')
                    closed[cp] = self.fold(k, inits[cp], l)
            rest = [cp for cp in open_ if cp not in closed]
            if rest:
                only = set(rest)
                while True:                                  # what they depend on runs along
                    more = set().union(*[deps[cp] for cp in rest]) - set(rest)
                    if not more: break
                    rest += more
                rest.sort(key=str)
                accs = [L[cp] for cp in rest]
                if any(a.op == 'g' for a in accs): raise Unsupported('boolean loop state')
                l = lam(k, tup(*[upd[cp] for cp in rest]), *accs)
                for i, cp in enumerate(rest):
                    if cp not in only: continue
                    so = sort_of(inits[cp])
                    closed[cp] = app('foldn', I(i), k, tup(*[inits[q] for q in rest]), l, sort=so)
            del self.obs[nobs:]; del self.events[nev:]
            st = start(closed)
            back, exs = body(dict(st), pc0)
        # 4. exits
        main = []; early = []
        allex = [(t, ps) for t, ps in exs if ps[0] is not FALSE]
        n = None; nmain = None
        # split each exit guard into control part and the rest: the control exit is a literal on k alone
        ctl = self.control(allex, pc0, k)
        if ctl is None:
            if getattr(self, 'debug', False):
                for t, ps in allex: print('EXIT', t, bshow(restrict(ps[0], pc0))[:600])
                print('PC0', bshow(pc0)[:600])
            if not opaque or not allex: raise Unsupported(f'loop without a recognised trip count in {tag}')
            ctl = None, None, FOREVER, None
        t_m, ps_m, n, g_m = ctl
        inb = lt(k, n)
        early = [(t, ps) for t, ps in allex if ps is not ps_m]
        E = FALSE
        for t, ps in early: E = bor_(E, self.tsimp(restrict(ps[0], band(pc0, inb)), band(pc0, inb)))
        out = []
        if E is FALSE:
            X = FALSE
        else:
            el = lam(k, E)
            X = exists(n, el)
        # record the body's obligations/events: they hold for any k < n
        # (and k before the first early exit)
        if n is FOREVER or E is not FALSE:
            run = bnot(exists(k, lam(k, E)))
            for o in self.obs[nobs:]: o.pc = band(o.pc, run)
            self.events[nev:] = [(e[0], band(e[1], run)) + tuple(e[2:]) for e in self.events[nev:]]
        # normal exit: k := n
        envn = {k: n}
        memo = {}
        if ps_m is not None:
            stn = {c: subst(v, envn, memo) for c, v in ps_m[1].items()}
            stn = {c: self.fin(v) for c, v in stn.items()}
            pcn = band(pc0, bnot(X))
            out.append((t_m, (pcn, stn)))
        if early:
            ks = first(n, el)
            env = {k: ks}
            memo = {}
            for t, ps in early:
                Ei = self.tsimp(restrict(ps[0], band(pc0, inb)), band(pc0, inb))
                gi = bsubst(Ei, env, memo)
                # which early exit: exactly one of them holds at the first exiting index
                tot = bsubst(E, env, memo)
                gi = restrict(gi, tot) if tot is not FALSE else gi
                if len(early) == 1: gi = TRUE
                sti = {c: subst(v, env, memo) for c, v in ps[1].items()}
                out.append((t, (band(pc0, X, gi), sti)))
        res = {}
        for t, ps in out: res[t] = self.merge(res.get(t), ps)
        for t, (p, s) in res.items():
            if mu_of(G(p)) or any(v is not st0.get(c) and mu_of(v) for c, v in s.items()):
                if getattr(self, 'debug', False): print('LEAK', [(c, show(v)[:300]) for c, v in s.items() if v is not st0.get(c) and mu_of(v)], [(cp, show(m)) for cp, m in L.items()], {cp: show(c)[:200] for cp, c in closed.items()})
                raise Unsupported(f'loop state without a closed form in {tag}')
        return list(res.items())

    def fin(self, v): return v

    def control(self, exs, pc0, k):
        """the exit whose guard is a monotone test of the iteration index -> (target, state, trip count, guard)"""
        ctl = []
        for t, ps in exs:
            if ps[0] is FALSE: continue
            g = restrict(ps[0], pc0)
            r = self.trip(g, k)
            if r is not None: ctl.append((t, ps, r, g))
        if not ctl: return None
        # several monotone tests: the first one evaluated has the simplest guard
        ctl.sort(key=lambda x: len(batoms(x[3])))
        return ctl[0]

    def fold(self, n, init, l):
        return app('fold', n, init, l, sort=sort_of(init) if sort_of(init) != 'obj' else sort_of(l.args[1]))

    def trip(self, g, k):
        """exit guard g (relative): if it is a single comparison literal monotone in k -> trip count"""
        if g is TRUE: return I(0)
        if g.a is None: return None
        # a k-independent case split: trip count by case
        for a in sorted(batoms(g), key=lambda x: x.id):
            if occurs(k, a): continue
            x = self.trip(cofactor(g, a, True), k)
            y = self.trip(cofactor(g, a, False), k) if x is not None else None
            return None if y is None else ite(atom(a), x, y)
        # allow a leading literal: g == lit  or g == (lit or ...)
        for a in sorted(batoms(g), key=lambda x: x.id):
            if a.op == 'le':
                L, b = a.args
                d = dict(L)
                if k not in d: continue
                if any(occurs(k, t) for t in d if t is not k): continue
                q = d[k]
                lit_pos = cofactor(g, a, True)
                lit_neg = cofactor(g, a, False)
                if q > 0 and lit_neg is TRUE and lit_pos is FALSE:
                    # exit iff  q*k + R > b   <=> k > (b-R)/q ; n = floor((b-R)/q)+1
                    R = mklin(0, {t: c for t, c in d.items() if t is not k})
                    x = sub(I(b), R)
                    return self.divceil(add(x, I(1)), q)
                if q < 0 and lit_pos is TRUE and lit_neg is FALSE:
                    # exit iff -|q|k + R <= b <=> |q| k >= R-b  ; n = ceil((R-b)/|q|)
                    R = mklin(0, {t: c for t, c in d.items() if t is not k})
                    return self.divceil(sub(R, I(b)), -q)
                # equality test: L == b is  L <= b and not L <= b-1
                a2 = atom(mk('le', L, b - 1))
                e = band(atom(a), bnot(a2))
                if g is e:
                    R = mklin(0, {t: c for t, c in d.items() if t is not k})
                    x = sub(I(b), R)
                    if q < 0: x = scale(x, -1); q = -q
                    c, dd = lin_parts(x)
                    if c % q == 0 and all(v % q == 0 for v in dd.values()):
                        return mklin(c // q, {t: v // q for t, v in dd.items()})
        return None

    def divceil(self, x, q):
        """max(0, ceil(x/q))"""
        lo, hi = interval(x)
        if q == 1:
            if lo is not None and lo >= 0: return x
            if self.nonneg(x): return x
            return ite(le(x, I(0)), I(0), x)
        c, d = lin_parts(x)
        if c % q == 0 and all(v % q == 0 for v in d.values()):
            y = mklin(c // q, {t: v // q for t, v in d.items()})
            lo, hi = interval(y)
            if (lo is not None and lo >= 0) or self.nonneg(y): return y
            return ite(le(y, I(0)), I(0), y)
        if lo is None or lo < 0:
            if not self.nonneg(x):
                return ite(le(x, I(0)), I(0), tdiv(add(x, I(q - 1)), I(q)))
        return tdiv(add(x, I(q - 1)), I(q))

    def nonneg(self, x):
        return False

    def closed_leaf(self, cp, m, init, u, k, mu_of, musyms):
        """closed form of leaf m with one-step update u (over k and the loop state), or None"""
        so = sort_of(init)
        if m.op == 'g':
            # sticky flag:  b' = b or g(k)   /  b and g(k)
            a = m.args[0].a
            ub = asB(u)
            hi, lo = cofactor(ub, a, True), cofactor(ub, a, False)
            if any(mu_of(G(x)) for x in (hi, lo)): return None
            ib = asB(init)
            if hi is TRUE:
                return G(bor_(ib, self.exk(k, lo)))
            if lo is FALSE:
                return G(band(ib, bnot(self.exk(k, bnot(hi)))))
            if hi is lo:
                # overwritten every round: value of the previous iteration
                if not occurs(k, hi): return G(bite(lt(I(0), k), hi, ib))
                return None
            return None
        if so == 'int':
            d = sub(u, m)
            if not mu_of(d):
                l = lam(k, d)
                return add(init, self.sumk(k, l))
            r = self.saturating(m, init, u, k, mu_of)
            if r is not None: return r
            r = self.modular(m, init, u, k, mu_of)
            if r is not None: return r
            # sticky assignment  x' = ite(g, c, x)
        r = self.sticky(m, init, u, k, mu_of)
        if r is not None: return r
        if so == 'seq':
            parts = seq_parts(u)
            if parts and parts[0] is m and not mu_of(cat(*parts[1:]) if len(parts) > 1 else EMPTY):
                l = lam(k, cat(*parts[1:]) if len(parts) > 1 else EMPTY)
                return cat(init, self.compk(k, l))
            return None
        if so == 'map' or (u.op == 'app' and u.args[0] == 'mins'):
            r = self.mapvals_leaf(m, init, u, k, mu_of)
            if r is not None: return r
        if not mu_of(u):
            # plain overwrite each round
            if so == 'int' or True:
                if not occurs(k, u): return ite(lt(I(0), k), u, init)
                return ite(lt(I(0), k), subst(u, {k: sub(k, I(1))}), init)
        return None

    def modular(self, m, init, u, k, mu_of):
        """x' = (x + d) mod M  ->  (x0 + sum d) mod M"""
        form = set()
        def go(u):
            if u is m: return I(0)
            if u.op == 'ite':
                if mu_of(G(u.args[0])): return None
                x = go(u.args[1]); y = go(u.args[2]) if x is not None else None
                return None if y is None else ite(u.args[0], x, y)
            if u.op == 'wrap' or u.op == 'mod' and u.args[1].op == 'int' and u.args[1].args[0] > 0:
                form.add((u.op, u.args[1]))
                d = sub(u.args[0], m)
                return None if mu_of(d) else d
            return None
        d = go(u)
        if d is None or len(form) != 1: return None
        op, q = form.pop()
        M = 1 << q if op == 'wrap' else q.args[0]
        lo, hi = interval(init); dlo = interval(d)[0]
        if lo is None or lo < 0 or hi is None or hi >= M or op == 'mod' and (dlo is None or dlo < 0): return None
        t = add(init, self.sumk(k, lam(k, d)))
        return tm.wrapn(t, q) if op == 'wrap' else tmod(t, q)

    def saturating(self, m, init, u, k, mu_of):
        """x' = min(x + d, C)  ->  min(x0 + sum d, C)"""
        caps = set()
        def go(u):
            d = sub(u, m)
            if not mu_of(d): return d
            if u.op != 'ite': return None
            g, a, b = u.args
            if b.op == 'int':
                d = sub(a, m)
                if not mu_of(d) and g is le(a, b): caps.add(b); return d
            if mu_of(G(g)): return None
            x = go(a); y = go(b) if x is not None else None
            return None if y is None else ite(g, x, y)
        d = go(u)
        if d is None or len(caps) != 1: return None
        cap, = caps
        lo = interval(d)[0]; hi = interval(init)[1]
        if lo is None or lo < 0 or hi is None or hi > cap.args[0]: return None
        t = add(init, self.sumk(k, lam(k, d)))
        return ite(le(t, cap), t, cap)

    def exk(self, k, g):
        """exists j < k : g(j), as a guard whose bound is the running index"""
        if g is FALSE: return FALSE
        return exists(k, lam(k, g))
    def sumk(self, k, l): return summ(k, l)
    def compk(self, k, l): return comp(k, l)

    def sticky(self, m, init, u, k, mu_of):
        if u.op != 'ite': return None
        g, a, b = u.args
        if a is m: g, a, b = bnot(g), b, a
        if b is not m: return None
        if mu_of(a) or mu_of(G(g)) or occurs(k, a): return None
        return ite(self.exk(k, g), a, init)

    def mapvals_leaf(self, m, init, u, k, mu_of):
        """M' = mins(M, key_k, f(M[key_k])) where key_k enumerates the keys of the initial map"""
        if not (u.op == 'app' and u.args[0] == 'mins' and u.args[1] is m): return None
        key, v = u.args[2], u.args[3]
        if key.op == 'app' and key.args[0] == 'mkey' and not occurs(k, key) and not mu_of(key) and key.args[1] is not init:
            # every round rewrites the one existing entry `key`: focus on it
            vterm = None
            for t in subterms(v):
                if t.op == 'app' and t.args[0] == 'mval' and t.args[1] is m and t.args[2] is key: vterm = t
            if vterm is None or sort_of(vterm) != 'map': return None
            x = fresh('mu', None, None, 'map')
            v2 = subst(v, {vterm: x})
            if mu_of(v2): return None
            init2 = mval(init, key, vterm.args[3])
            def mu2(t): return mu_of(t) | ({x} if x in subterms(t) else set())
            r = self.closed_leaf(None, x, init2, v2, k, mu2, None)
            return None if r is None else mins(init, key, r)
        if not (key.op == 'app' and key.args[0] == 'mkey' and key.args[2] is k): return None
        if key.args[1] is not init and key.args[1] is not m: return None
        vterm = None
        for t in subterms(v):
            if t.op == 'app' and t.args[0] == 'mval' and t.args[1] is m and t.args[2] is key:
                vterm = t
        x = fresh('v', *(symrange.get(vterm.id, (None, None)) if vterm is not None else (None, None)), sort=sort_of(vterm) if vterm is not None else 'obj')
        v2 = subst(v, {vterm: x}) if vterm is not None else v
        if mu_of(v2): return None
        if occurs(k, v2): return None
        dummy = fresh('k', 0, MAXLEN)
        return app('mapvalsn', k, init, lam(dummy, v2, x), sort='map')

def _mapvalsn(n, m, l):
    if n is mlen(m): return mapvals(m, l)
    return app('mapvalsn', n, m, l, sort='map')
tm._builders['mapvalsn'] = _mapvalsn

FOREVER = app('forever', lo=1 << 59, hi=MAXLEN)

def _fold(n, init, l):
    if n.op == 'int' and n.args[0] == 0: return init
    if n.op == 'int' and n.args[0] <= 64:
        acc = init
        for i in range(n.args[0]): acc = lam_apply(l, I(i), acc)
        return acc
    return app('fold', n, init, l, sort=sort_of(init) if sort_of(init) != 'obj' else sort_of(l.args[1]))
tm._builders['fold'] = _fold

class Frame:
    def __init__(self, id, body):
        self.id = id; self.body = body; self.locals = body['locals']
        self.all_blocks = frozenset(i for i, b in enumerate(body['blocks']) if not b.get('cleanup'))
        c = body.setdefault('_succ', {})
        if not c:
            for i, b in enumerate(body['blocks']):
                if not b.get('cleanup'): c[i] = self.succs(b['t'])
        self.succ = c
        self.cache = body.setdefault('_scc', {})
    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        return []
    def selfloop(self, b, header):
        return b in self.succ[b] and b != header
    def sccs(self, blocks, header):
        key = (blocks, header)
        if key in self.cache: return self.cache[key]
        idx = {}; low = {}; on = set(); st = []; out = []; n = [0]
        def succ(v):
            return [w for w in self.succ[v] if w in blocks and not (w == header)]
        def go(v0):
            work = [(v0, iter(succ(v0)))]
            idx[v0] = low[v0] = n[0]; n[0] += 1; st.append(v0); on.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(succ(w)))); adv = True
                        break
                    elif w in on: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
        for b in sorted(blocks):
            if b not in idx: go(b)
        out.reverse()
        self.cache[key] = out
        return out

class Call:
    """one call site during evaluation; models mutate c.st / c.pc and return the result value"""
    def __init__(self, ev, st, pc, fn, args, argtys, ty):
        self.ev, self.st, self.pc, self.fn, self.args, self.argtys, self.ty = ev, st, pc, fn, args, argtys, ty
        self.skip = FALSE
        self.frame = None
    @property
    def path(self): return self.fn['path']
    def load(self, r, ty=None): return self.ev.load(self.st, r, ty)
    def store(self, r, v, ty=None): self.ev.store(self.st, r, v, ty)
    def panic_unless(self, ok, kind):
        ok = restrict(ok, self.pc)
        self.ev.pc = self.pc
        self.ev.obligation(self.pc, ok, 'panic:' + kind)
        self.pc = band(self.pc, ok)
    def val(self, i):
        """argument i with references looked through"""
        a = self.args[i]
        return self.look(a)
    def look(self, a):
        n = 0
        while a.op in ('rv', 'ref', 'sref') and n < 6:
            a = self.load(a); n += 1
        if a.op == 'ite' and (a.args[1].op in ('rv', 'ref', 'sref') or a.args[2].op in ('rv', 'ref', 'sref')):
            return ite(a.args[0], self.look(a.args[1]), self.look(a.args[2]))
        return a
    def callable_(self, i):
        cs = [x for x in (self.fn.get('callables') or [])]
        nn = [x for x in cs if x]
        if i < len(nn): return nn[i]
        raise Unsupported('callable of ' + self.fn['path'])
    def apply(self, cal, fv, args, guard=TRUE):
        """call closure/function item `cal` (value fv) on args under guard; effects are merged back"""
        g = restrict(guard, self.pc)
        if band(self.pc, g) is FALSE: return None
        ev = self.ev
        sub_pc = band(self.pc, g)
        st0 = dict(self.st); pc0 = self.pc
        if isinstance(cal, dict) and 'path' in cal:
            if cal.get('closure'):
                pass
            c2 = Call(ev, dict(self.st), sub_pc, cal, list(args), cal.get('argtys') or ['?'] * len(args), cal.get('retty') or '?')
            c2.frame = self.frame
            ret = ev.dispatch(c2)
            st2, pc2 = c2.st, c2.pc
        else:
            key = cal['body'] if isinstance(cal.get('body'), str) else cal.get('key')
            body = ev.p.bodies.get(key)
            if body is None: raise Unsupported('closure body ' + str(key))
            l1 = body['locals'][1][0]
            st2 = dict(self.st)
            tmp = None
            if l1.startswith('&mut'):
                if fv.op == 'ref': self_arg = fv
                else:
                    ev.tmpn += 1
                    tmp = f'@c{ev.tmpn}'
                    st2[tmp] = fv
                    self_arg = mk('ref', tmp)
            elif l1.startswith('&'):
                self_arg = fv if fv.op == 'rv' else rv(ev.load(st2, fv) if fv.op == 'ref' else fv)
            else:
                self_arg = ev.load(st2, fv) if fv.op == 'ref' else fv
            pc2, st2, ret = ev.call_body(body, [self_arg] + list(args), st2, sub_pc)
            if tmp: st2.pop(tmp, None)
        if pc2 is FALSE:
            self.pc = band(pc0, bnot(g))
            return None
        other = band(pc0, bnot(g))
        if other is FALSE:
            self.st, self.pc = st2, pc2
        else:
            self.pc, self.st = ev.merge((pc2, st2), (other, st0))
        return ret
