"""Abstract models of the standard-library functions the crate uses (and their usual alternatives).

Each model gives the value and the effect of one library function in the term language of vals.py.
A function without a model makes the evaluation of its caller undecided, never silently accepted."""
import json, re
from vals import *
from mat import *
import vals, terms as tm

U8T = 'u8'

def split_args(s):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '<([{': d += 1
        elif ch in ')]}': d -= 1
        elif ch == '>' and s[i - 1] != '-': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

def targs(ty):
    """generic type arguments of a type string"""
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'): return []
    return [x for x in split_args(ty[i + 1:-1]) if not x.startswith("'")]

def head(ty):
    i = ty.find('<')
    return ty if i < 0 else ty[:i]

def strip_ref(ty):
    n = 0
    while ty.startswith('&'):
        ty = ty[1:]
        m = re.match(r"'[a-z_]\w* ", ty)
        if m: ty = ty[m.end():]
        if ty.startswith('mut '): ty = ty[4:]
        n += 1
    return ty

def opt_inner(ty):
    a = targs(ty)
    return a[0] if a else '?'

def elem_of(ty):
    ty = strip_ref(ty)
    if ty.startswith('['):
        m = re.match(r'\[(.*?)(; [^;]*)?\]$', ty)
        return m.group(1)
    if ty in ('std::string::String', 'str'): return 'u8'
    a = targs(ty)
    return a[0] if a else 'u8'

def name_of(path):
    """(owner, method) of a std path"""
    p = path
    if p.startswith('<'):
        # <X as Trait>::m
        d = 0
        for i, ch in enumerate(p):
            if ch == '<': d += 1
            elif ch == '>' and p[i - 1] != '-':
                d -= 1
                if d == 0: break
        return p[1:i], p[i + 1:].lstrip(':')
    segs = []; cur = ''; d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<': d += 1
        if ch == '>' and p[i - 1] != '-': d -= 1
        if d == 0 and p[i:i + 2] == '::':
            segs.append(cur); cur = ''; i += 2; continue
        cur += ch; i += 1
    segs.append(cur)
    segs = [s for s in segs if not (s.startswith('<') and not s.startswith('<impl'))]
    m = segs[-1]
    o = segs[-2] if len(segs) > 1 else ''
    if o.startswith('<impl '): o = o[6:-1]
    o = re.sub(r'<.*', '', o)
    return o, m

MODELS = {}
def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco

def std_call(c):
    o, m = name_of(c.fn['path'])
    f = MODELS.get(f'{o}.{m}')
    if f is None and (o in INT or o in ('f64', 'f32', 'char', 'bool')):
        f = MODELS.get(f'num.{m}')
        c.num = o
    if f is None: f = MODELS.get(f'*.{m}') if (o.startswith('*') or o in ('const_ptr', 'mut_ptr', 'NonNull')) else None
    if f is None:
        c.ev.unmodelled.add(c.fn['path'])
        raise Unsupported('no model of ' + c.fn['path'] + ' [' + str(c.fn.get('rpath')) + ']')
    c.meth = m
    return f(c)

# ------------------------------------------------------------------ Option / Result
def E(c, i, ty=None):
    """argument i as an enum value"""
    a = c.args[i]
    return c.ev.expand(a, ty or c.argtys[i])

def refself(c, i=0):
    """(&self or &mut self of enum) -> enum value"""
    v = c.val(i)
    return c.ev.expand(v, strip_ref(c.argtys[i]))

def alts2(e):
    """guards and fields: (g0,f0,g1,f1)"""
    g = [FALSE, FALSE]; f = [None, None]
    for a, gg, fs in en_alts(e):
        g[a] = gg; f[a] = fs
    return g[0], f[0], g[1], f[1]

def call1(c, i, fv, args, g):
    """apply callable number i (value fv) under guard g"""
    if g is FALSE: return None
    return c.apply(c.callable_(i), fv, args, g)

def mkalts(*alts):
    return mken([(v, g, fs) for v, g, fs in alts if g is not FALSE and all(x is not None for x in fs)])

@model('Option.map', 'Option.and_then', 'Option.filter', 'Option.is_some_and', 'Option.is_none_or', 'Option.inspect', 'Option.map_or', 'Option.map_or_else', 'Option.ok_or_else',
       'Option.unwrap_or_else', 'Option.or_else', 'Option.unwrap_or_default')
def _optmap(c):
    e = E(c, 0); m = c.meth
    g0, _, g1, f1 = alts2(e)
    x = f1[0] if f1 else None
    if m in ('map', 'and_then', 'is_some_and', 'is_none_or'):
        r = call1(c, 0, c.args[1], [x], g1)
        if m == 'map': return mkalts((0, g0, ()), (1, g1, (r,)))
        if m == 'and_then':
            if r is None: return mkalts((0, g0, ()))
            r = c.ev.expand(r, c.ty)
            return mken([(0, g0, ())] + [(v, band(g1, g), fs) for v, g, fs in en_alts(r)])
        b = asB(r) if r is not None else FALSE
        return G(band(g1, b)) if m == 'is_some_and' else G(bor_(g0, b))
    if m == 'filter':
        r = call1(c, 0, c.args[1], [rv(x)] if x is not None else [], g1)
        b = asB(r) if r is not None else FALSE
        return mkalts((0, bor_(g0, band(g1, bnot(b))), ()), (1, band(g1, b), (x,)))
    if m == 'map_or':
        r = call1(c, 0, c.args[2], [x], g1)
        return c.args[1] if r is None else ite(g1, r, c.args[1])
    if m == 'map_or_else':
        d = call1(c, 0, c.args[1], [], g0)
        r = call1(c, 1, c.args[2], [x], g1)
        return r if d is None else d if r is None else ite(g1, r, d)
    if m == 'ok_or_else':
        r = call1(c, 0, c.args[1], [], g0)
        return mkalts((0, g1, (x,)), (1, g0, (r,)))
    if m == 'unwrap_or_else':
        r = call1(c, 0, c.args[1], [], g0)
        return r if x is None else x if r is None else ite(g1, x, r)
    if m == 'or_else':
        r = call1(c, 0, c.args[1], [], g0)
        if r is None: return e
        return en_merge(g1, e, c.ev.expand(r, c.ty))
    if m == 'unwrap_or_default':
        d = default_of(c, c.ty)
        return d if x is None else ite(g1, x, d)
    raise Unsupported(m)

@model('Option.ok_or')
def _okor(c):
    g0, _, g1, f1 = alts2(E(c, 0))
    return mkalts((0, g1, f1 or (None,)), (1, g0, (c.args[1],)))
@model('Option.or')
def _optor(c):
    e = E(c, 0); g0, _, g1, f1 = alts2(e)
    return en_merge(g1, e, E(c, 1)) if g1 is not FALSE else E(c, 1)
@model('Option.and')
def _optand(c):
    g0, _, g1, f1 = alts2(E(c, 0))
    return en_merge(g1, E(c, 1), NONE) if g1 is not FALSE else NONE
@model('Option.xor')
def _optxor(c):
    raise Unsupported('Option::xor')
@model('Option.zip')
def _optzip(c):
    a0, _, a1, x = alts2(E(c, 0)); b0, _, b1, y = alts2(E(c, 1))
    g = band(a1, b1)
    if g is FALSE: return NONE
    return opt(g, tup(x[0], y[0]))
@model('Option.is_some', 'Result.is_err')
def _issome(c): return G(alts2(refself(c))[2])
@model('Option.is_none', 'Result.is_ok')
def _isnone(c): return G(alts2(refself(c))[0])
@model('Option.unwrap_or', 'Option.unwrap_unchecked')
def _unwrapor(c):
    g0, _, g1, f1 = alts2(E(c, 0))
    if len(c.args) < 2: return f1[0]
    return c.args[1] if f1 is None else ite(g1, f1[0], c.args[1])
@model('Option.unwrap', 'Option.expect')
def _unwrap(c):
    g0, _, g1, f1 = alts2(E(c, 0))
    c.panic_unless(g1, 'unwrap')
    return f1[0] if f1 else UNIT
@model('Option.copied', 'Option.cloned')
def _copied(c):
    g0, _, g1, f1 = alts2(E(c, 0))
    return mkalts((0, g0, ()), (1, g1, (c.look(f1[0]),) if f1 else (None,)))
@model('Option.as_ref', 'Result.as_ref', 'Option.as_deref', 'Result.as_deref')
def _asref(c):
    e = refself(c)
    return mken([(v, g, tuple(rv(c.look(x)) if c.meth == 'as_deref' else rv(x) for x in fs)) for v, g, fs in en_alts(e)])
@model('Option.as_mut', 'Option.as_deref_mut', 'Result.as_mut')
def _asmut(c):
    r = c.args[0]
    ety = strip_ref(c.argtys[0])
    e = c.ev.expand(c.load(r), ety)
    t = targs(ety)
    isres = head(ety).endswith('Result')
    out = []
    for v, g, fs in en_alts(e):
        ft = t[v] if isres else t[0]
        out.append((v, g, tuple(c.ev.ext(r, mk('pvf', v, j, ft, ety)) for j, _ in enumerate(fs))))
    return mken(out)
@model('Option.take')
def _take(c):
    r = c.args[0]; e = c.ev.expand(c.load(r), strip_ref(c.argtys[0]))
    c.store(r, NONE)
    return e
@model('Option.replace')
def _replace(c):
    r = c.args[0]; e = c.ev.expand(c.load(r), strip_ref(c.argtys[0]))
    c.store(r, some(c.args[1]))
    return e
@model('Option.insert', 'Option.get_or_insert_with', 'Option.get_or_insert')
def _optins(c):
    r = c.args[0]; ety = strip_ref(c.argtys[0])
    if c.meth == 'insert':
        c.store(r, some(c.args[1]))
    else:
        e = c.ev.expand(c.load(r), ety)
        g0, _, g1, f1 = alts2(e)
        n = c.args[1] if c.meth == 'get_or_insert' else call1(c, 0, c.args[1], [], g0)
        if n is not None and g0 is not FALSE:
            cur = c.ev.expand(c.load(r), ety)
            c.store(r, en_merge(g1, cur, some(n)))
    return c.ev.ext(r, mk('pvf', 1, 0, opt_inner(ety), ety))
@model('Option.iter')
def _optiter(c):
    raise Unsupported('Option::iter')

@model('Result.map', 'Result.map_err', 'Result.and_then', 'Result.or_else', 'Result.unwrap_or_else', 'Result.map_or', 'Result.map_or_else', 'Result.is_ok_and', 'Result.is_err_and', 'Result.unwrap_or_default')
def _resmap(c):
    e = E(c, 0); m = c.meth
    g0, f0, g1, f1 = alts2(e)
    x = f0[0] if f0 else None; y = f1[0] if f1 else None
    if m == 'map':
        r = call1(c, 0, c.args[1], [x], g0)
        return mkalts((0, g0, (r,)), (1, g1, (y,)))
    if m == 'map_err':
        r = call1(c, 0, c.args[1], [y], g1)
        return mkalts((0, g0, (x,)), (1, g1, (r,)))
    if m == 'and_then':
        r = call1(c, 0, c.args[1], [x], g0)
        if r is None: return mkalts((1, g1, (y,)))
        return mken([(v, band(g0, g), fs) for v, g, fs in en_alts(c.ev.expand(r, c.ty))] + ([(1, g1, (y,))] if g1 is not FALSE else []))
    if m == 'or_else':
        r = call1(c, 0, c.args[1], [y], g1)
        if r is None: return mkalts((0, g0, (x,)))
        return mken([(v, band(g1, g), fs) for v, g, fs in en_alts(c.ev.expand(r, c.ty))] + ([(0, g0, (x,))] if g0 is not FALSE else []))
    if m == 'unwrap_or_else':
        r = call1(c, 0, c.args[1], [y], g1)
        return x if r is None else r if x is None else ite(g0, x, r)
    if m == 'map_or':
        r = call1(c, 0, c.args[2], [x], g0)
        return c.args[1] if r is None else ite(g0, r, c.args[1])
    if m == 'map_or_else':
        d = call1(c, 0, c.args[1], [y], g1)
        r = call1(c, 1, c.args[2], [x], g0)
        return r if d is None else d if r is None else ite(g0, r, d)
    if m == 'is_ok_and':
        r = call1(c, 0, c.args[1], [x], g0)
        return G(band(g0, asB(r)) if r is not None else FALSE)
    if m == 'is_err_and':
        r = call1(c, 0, c.args[1], [y], g1)
        return G(band(g1, asB(r)) if r is not None else FALSE)
    if m == 'unwrap_or_default':
        d = default_of(c, c.ty)
        return d if x is None else ite(g0, x, d)
    raise Unsupported(m)
@model('Result.ok')
def _resok(c):
    g0, f0, g1, f1 = alts2(E(c, 0))
    return mkalts((0, g1, ()), (1, g0, f0 or (None,)))
@model('Result.err')
def _reserr(c):
    g0, f0, g1, f1 = alts2(E(c, 0))
    return mkalts((0, g0, ()), (1, g1, f1 or (None,)))
@model('Result.unwrap', 'Result.expect')
def _resunwrap(c):
    g0, f0, g1, f1 = alts2(E(c, 0))
    c.panic_unless(g0, 'unwrap')
    return f0[0] if f0 else UNIT
@model('Result.unwrap_err', 'Result.expect_err')
def _resunwraperr(c):
    g0, f0, g1, f1 = alts2(E(c, 0))
    c.panic_unless(g1, 'unwrap')
    return f1[0] if f1 else UNIT
@model('Result.unwrap_or')
def _resunwrapor(c):
    g0, f0, g1, f1 = alts2(E(c, 0))
    return c.args[1] if f0 is None else ite(g0, f0[0], c.args[1])
@model('Result.copied', 'Result.cloned')
def _rescopied(c):
    e = E(c, 0)
    return mken([(v, g, tuple(c.look(x) for x in fs) if v == 0 else fs) for v, g, fs in en_alts(e)])

@model('Try.branch')
def _branch(c):
    # ControlFlow: Continue = 0, Break = 1
    e = E(c, 0)
    g0, f0, g1, f1 = alts2(e)
    if 'Option' in head(c.argtys[0]):
        return mkalts((0, g1, f1 or (None,)), (1, g0, (NONE,)))
    return mkalts((0, g0, f0 or (None,)), (1, g1, (errv(f1[0]),) if f1 else (None,)))
@model('FromResidual.from_residual')
def _fromres(c):
    a = c.args[0]
    h = head(c.ty)
    e = c.ev.expand(a, c.argtys[0])
    if h.endswith('Option'): return NONE
    g0, f0, g1, f1 = alts2(e)
    x = f1[0] if f1 else UNIT
    te = targs(c.ty); ts = targs(c.argtys[0])
    if te and ts and te[-1] != ts[-1]:
        x = convert(c, x, ts[-1], te[-1])
    return errv(x)
@model('Try.from_output')
def _fromout(c):
    return some(c.args[0]) if 'Option' in head(c.ty) else okv(c.args[0])

# ------------------------------------------------------------------ conversions
def convert(c, v, fr, to):
    if fr == to: return v
    key = f'<{to} as std::convert::From<{fr}>>::from'
    b = c.ev.p.bodies.get(key)
    if b is not None:
        pc, st, r = c.ev.call_body(b, [v], c.st, c.pc)
        c.pc, c.st = pc, st
        return r
    if fr in INT and to in INT:
        return v
    if fr == 'bool' and to in INT:
        return ite(asB(v), I(1), I(0))
    if to in ('f64', 'f32'):
        return fop('i2f32' if to == 'f32' else 'i2f', v) if fr in INT else v
    if fr == 'char' or to == 'char': return v
    if to == 'std::string::String': return c.look(v)
    if to.startswith('std::vec::Vec') or to.startswith('std::boxed::Box<'): return c.look(v) if not to.startswith('std::boxed::Box<') else mk('box', v)
    if to.startswith('std::option::Option'): return some(v)
    return app('convert', v, fr, to, sort='obj')
@model('From.from', 'Into.into')
def _from(c):
    ta = c.fn['targs']
    fr, to = (ta[1], ta[0]) if c.meth == 'from' else (ta[0], ta[1])
    if c.meth == 'into':
        return convert(c, c.args[0], fr, to)
    return convert(c, c.args[0], fr, to)
@model('TryFrom.try_from', 'TryInto.try_into')
def _tryfrom(c):
    ta = c.fn['targs']
    fr, to = (ta[1], ta[0]) if c.meth == 'try_from' else (ta[0], ta[1])
    a = c.args[0]
    if fr in INT and to in INT:
        lo, hi = INT[to]
        return result(band(ge(a, I(lo)), le(a, I(hi))), a, UNIT)
    key = f'<{to} as std::convert::TryFrom<{fr}>>::try_from'
    if key in c.ev.p.bodies: return c.ev.inline(c, key, c.args)
    t = strip_ref(to)
    if t.startswith('[') and ';' in t:
        n = I(int(t[:-1].split(';')[1]))
        s = c.look(a)
        v = to_arr(s, int(t[:-1].split(';')[1]), elem_of(t))
        return result(eq(seqlen(s), n), rv(v) if to.startswith('&') else v, UNIT)
    raise Unsupported(f'try_from {fr} -> {to}')
def to_arr(s, n, ety='u8'):
    return mk('arr', *[at(s, I(i), ety) for i in range(n)]) if n <= 64 else s

def is_copy(ty): return ty in INT or ty in ('bool', 'f64', 'f32', '()', 'char')
@model('Clone.clone', 'ToOwned.to_owned', '[T].to_vec', 'Clone.clone_from')
def _clone(c):
    st = strip_ref(c.argtys[0])
    ta = c.fn.get('targs') or []
    if c.meth == 'clone' and ta and ta[0].startswith('&') and not ta[0].startswith('&mut'):
        return c.load(c.args[0]) if c.args[0].op in ('ref', 'rv') else c.args[0]
    v = c.val(0)
    if c.meth == 'clone_from':
        c.store(c.args[0], c.val(1)); return UNIT
    h = head(st)
    if (h.endswith('::Vec') or h.startswith('[') or c.meth == 'to_vec') and v.op != 'rv' and sort_of(v) == 'seq': grown(c, st, v)
    return v
@model('Copy.copy')
def _copy(c): return c.val(0)

def default_of(c, ty):
    if ty in INT: return I(0)
    if ty == 'bool': return G(FALSE)
    if ty in ('f64', 'f32'): return fconst(0.0)
    if ty == '()': return UNIT
    h = head(ty)
    if 'HashMap' in h or 'HashSet' in h or 'BTree' in h: return MNEW
    if h.endswith('::Vec') or h.endswith('::String'): return EMPTY
    if h.endswith('::Option'): return NONE
    if ty.startswith('('):
        return tup(*[default_of(c, x) for x in split_args(ty[1:-1])])
    key = f'<{ty} as std::default::Default>::default'
    if key in c.ev.p.bodies: return c.ev.inline(c, key, [])
    if ty.startswith('&') and 'str' in ty: return rv(EMPTY)
    if ty.startswith('graphrox::'):
        own = {'Graph': 'Graph', 'CompressedGraph': 'CompressedGraph', 'CsrSquareMatrix': 'Matrix'}.get(head(ty).split('::')[-1])
        if own: return app('core', own + '.default', sort='obj')
    raise Unsupported('default of ' + ty)
@model('Default.default')
def _default(c): return default_of(c, c.ty)
@model('mem.take')
def _mtake(c):
    v = c.load(c.args[0]); c.store(c.args[0], default_of(c, c.ty)); return v
@model('mem.replace')
def _mrepl(c):
    v = c.load(c.args[0]); c.store(c.args[0], c.args[1]); return v
@model('mem.swap', 'ptr.swap')
def _mswap(c):
    a, b = c.load(c.args[0]), c.load(c.args[1])
    c.store(c.args[0], b); c.store(c.args[1], a); return UNIT
@model('mem.drop', 'mem.forget')
def _mdrop(c):
    c.ev.pc = c.pc
    c.ev.event('drop' if c.meth == 'drop' else 'forget', c.argtys[0], c.args[0])
    return UNIT
SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16, '()': 0}
def size_of(c, ty):
    if ty in SIZES: return SIZES[ty]
    if ty.startswith('(') and ty.endswith(')'):
        ss = [size_of(c, x) for x in split_args(ty[1:-1])]
        if ss and all(s == ss[0] for s in ss): return sum(ss)
    if ty.startswith('[') and ';' in ty:
        e, n = ty[1:-1].rsplit(';', 1)
        return size_of(c, e.strip()) * int(n)
    if ty.startswith(('*', '&')) and not ty.endswith(']') and not ty.endswith('str'): return 8
    raise Unsupported('size_of ' + ty)
@model('mem.size_of', 'mem.align_of')
def _sizeof(c):
    return I(size_of(c, c.fn['targs'][0]))
@model('mem.size_of_val')
def _sizeofval(c):
    return I(size_of(c, c.fn['targs'][0]))
@model('hint.must_use', 'hint.black_box', 'convert.identity')
def _ident(c): return c.args[0]
@model('intrinsics.cold_path', 'hint.cold_path', 'hint.spin_loop')
def _nop(c): return UNIT
@model('Deref.deref', 'AsRef.as_ref', 'Borrow.borrow', 'String.as_str', 'String.as_bytes', 'str.as_bytes', 'Vec.as_slice', '[T].as_slice', 'str.as_ref', 'CString.as_c_str')
def _deref(c):
    return rv(c.val(0))
@model('DerefMut.deref_mut', 'AsMut.as_mut', 'BorrowMut.borrow_mut', 'Vec.as_mut_slice')
def _derefmut(c):
    return c.args[0]

# ------------------------------------------------------------------ numbers
def nrange(c):
    return INT[c.num]
@model('num.checked_add', 'num.checked_sub', 'num.checked_mul', 'num.checked_div', 'num.checked_rem', 'num.checked_next_multiple_of')
def _checked(c):
    lo, hi = nrange(c); a, b = c.args[0], c.args[1]
    op = c.meth[8:]
    if op in ('div', 'rem'):
        if lo < 0: raise Unsupported('signed checked_div')
        return opt(bnot(eq(b, I(0))), tdiv(a, b) if op == 'div' else tmod(a, b))
    if op == 'next_multiple_of': raise Unsupported(op)
    r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
    g = TRUE
    if op != 'add' or lo < 0: g = band(g, ge(r, I(lo)))
    if op != 'sub' or lo < 0: g = band(g, le(r, I(hi)))
    return opt(g, r)
@model('num.overflowing_add', 'num.overflowing_sub', 'num.overflowing_mul')
def _overflowing(c):
    lo, hi = nrange(c); a, b = c.args
    r = {'add': add, 'sub': sub, 'mul': mul}[c.meth[12:]](a, b)
    if lo < 0: raise Unsupported('signed overflowing')
    return tup(wrapn(r, (hi + 1).bit_length() - 1), G(bnot(band(ge(r, I(lo)), le(r, I(hi))))))
@model('num.saturating_add', 'num.saturating_sub', 'num.saturating_mul')
def _sat(c):
    lo, hi = nrange(c); a, b = c.args
    op = c.meth[11:]
    r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
    if op != 'sub' or lo < 0: r = ite(le(r, I(hi)), r, I(hi))
    if op == 'sub' or lo < 0:
        x = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
        r = ite(ge(x, I(lo)), r, I(lo))
    return r
@model('num.wrapping_add', 'num.wrapping_sub', 'num.wrapping_mul')
def _wrapping(c):
    lo, hi = nrange(c); a, b = c.args
    if lo < 0: raise Unsupported('signed wrapping')
    return wrapn({'add': add, 'sub': sub, 'mul': mul}[c.meth[9:]](a, b), (hi + 1).bit_length() - 1)
@model('num.wrapping_shl', 'num.wrapping_shr', 'num.checked_shl', 'num.checked_shr', 'num.unbounded_shl', 'num.unbounded_shr')
def _wshl(c):
    lo, hi = nrange(c); bits = (hi + 1).bit_length() - 1 if lo == 0 else None
    if bits is None: raise Unsupported('signed shift')
    a, s = c.args
    sm = tmod(s, I(bits)) if c.meth.startswith('wrapping') else s
    r = tshl(a, sm, bits) if c.meth.endswith('shl') else tshr(a, sm)
    if c.meth.startswith('checked'): return opt(lt(s, I(bits)), r)
    if c.meth.startswith('unbounded'): return ite(lt(s, I(bits)), r, I(0))
    return r
@model('num.checked_pow', 'num.pow', 'num.saturating_pow')
def _pow(c):
    a, b = c.args
    lo, hi = nrange(c)
    if b.op == 'int' and b.args[0] <= 8:
        r = I(1)
        for _ in range(b.args[0]): r = mul(r, a)
    elif a.op == 'int' and b.op == 'int': r = I(a.args[0] ** b.args[0])
    else: raise Unsupported('pow')
    ok = band(ge(r, I(lo)), le(r, I(hi)))
    if c.meth == 'checked_pow': return opt(ok, r)
    if c.meth == 'saturating_pow': return ite(ok, r, I(hi))
    c.panic_unless(ok, 'pow overflow')
    return r
@model('num.is_multiple_of')
def _ismult(c):
    a, b = c.args
    return G(bite(eq(b, I(0)), eq(a, I(0)), eq(tmod(a, b), I(0))))
@model('num.div_ceil')
def _divceil(c):
    a, b = c.args
    c.panic_unless(bnot(eq(b, I(0))), 'division by zero')
    return add(tdiv(a, b), ite(eq(tmod(a, b), I(0)), I(0), I(1)))
@model('num.div_euclid', 'num.rem_euclid')
def _dive(c):
    lo, hi = nrange(c); a, b = c.args
    if lo < 0: raise Unsupported('signed euclid')
    c.panic_unless(bnot(eq(b, I(0))), 'division by zero')
    return tdiv(a, b) if c.meth == 'div_euclid' else tmod(a, b)
@model('num.next_multiple_of')
def _nmo(c):
    a, b = c.args; lo, hi = nrange(c)
    q = add(tdiv(a, b), ite(eq(tmod(a, b), I(0)), I(0), I(1)))
    r = mul(q, b)
    c.panic_unless(le(r, I(hi)), 'overflow')
    return r
@model('num.abs_diff')
def _absdiff(c):
    a, b = c.args
    return ite(le(a, b), sub(b, a), sub(a, b))
@model('num.count_ones')
def _co(c): return popcount(c.args[0])
@model('num.count_zeros')
def _cz(c):
    lo, hi = nrange(c)
    return sub(I((hi + 1).bit_length() - 1), popcount(c.args[0]))
@model('num.trailing_zeros', 'num.leading_zeros', 'num.ilog2', 'num.isqrt')
def _tz(c):
    w = (nrange(c)[1] + 1).bit_length() - 1
    if c.args[0].op == 'int' and c.meth in ('leading_zeros', 'trailing_zeros'):
        v = c.args[0].args[0] % (1 << w)
        return I(w - v.bit_length() if c.meth == 'leading_zeros' else (v & -v).bit_length() - 1 if v else w)
    return app(c.meth, c.args[0], I(w), lo=0, hi=w if c.meth != 'isqrt' else 1 << (w + 1) // 2)
@model('num.is_power_of_two')
def _ispow(c): return G(pred('ispow2', c.args[0]))
def nbytes(c): 
    lo, hi = nrange(c)
    return ((hi - lo + 1).bit_length() - 1) // 8
@model('num.to_be_bytes', 'num.to_le_bytes', 'num.to_ne_bytes')
def _tobe(c):
    n = nbytes(c); o = 'be' if c.meth == 'to_be_bytes' else 'le'
    return be(n, c.args[0], o)
@model('num.from_be_bytes', 'num.from_le_bytes', 'num.from_ne_bytes')
def _frombe(c):
    n = nbytes(c)
    return beint(n, c.args[0], I(0), 'be' if c.meth == 'from_be_bytes' else 'le')
@model('num.to_be', 'num.from_be', 'num.swap_bytes')
def _swapb(c): return app('bswap', c.args[0], I(nbytes(c)), lo=0, hi=nrange(c)[1])
@model('num.to_le', 'num.from_le')
def _tole(c): return c.args[0]
@model('Ord.max', 'num.max', 'cmp.max', 'Ord.min', 'num.min', 'cmp.min', 'num.maximum', 'num.minimum')
def _max(c):
    a, b = c.args[:2]; 
    mx = c.meth.startswith('max')
    if c.argtys[0] in ('f64', 'f32'):
        # NaN-ignoring
        l = flt(a, b); 
        na, nb = bnot(feq(a, a)) if a.op != 'fconst' else FALSE, bnot(feq(b, b)) if b.op != 'fconst' else FALSE
        r = ite(l, b, a) if mx else ite(flt(b, a), b, a)
        return ite(na, b, ite(nb, a, r))
    return tmax(a, b) if mx else tmin(a, b)
@model('Ord.clamp', 'num.clamp')
def _clamp(c):
    x, lo, hi = c.args
    if c.argtys[0] in ('f64', 'f32'):
        c.panic_unless(fle(lo, hi), 'clamp')
        return ite(flt(x, lo), lo, ite(flt(hi, x), hi, x))
    c.panic_unless(le(lo, hi), 'clamp')
    return ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))
@model('PartialEq.eq', 'PartialEq.ne', 'PartialOrd.lt', 'PartialOrd.le', 'PartialOrd.gt', 'PartialOrd.ge')
def _cmp(c):
    a, b = c.val(0), c.val(1)
    ty = strip_ref(c.argtys[0])
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.meth]
    return G(c.ev.compare(op, a, b, ty))
@model('Ord.cmp', 'PartialOrd.partial_cmp', 'num.total_cmp')
def _ord(c):
    a, b = c.val(0), c.val(1)
    ty = strip_ref(c.argtys[0])
    if ty in ('f64', 'f32'):
        if c.meth == 'total_cmp': raise Unsupported('total_cmp')
        l, e, g = flt(a, b), feq(a, b), flt(b, a)
        return mken([(1, l, (mken([(0, TRUE, ())]),)), (1, e, (mken([(1, TRUE, ())]),)), (1, g, (mken([(2, TRUE, ())]),)), (0, bnot(bor_(l, e, g)), ())])
    r = mken([(0, lt(a, b), ()), (1, eq(a, b), ()), (2, lt(b, a), ())]) if sort_of(a) == 'int' else None
    if r is None:
        l = c.ev.compare('Lt', a, b, ty); e = c.ev.compare('Eq', a, b, ty)
        r = mken([(0, l, ()), (1, band(bnot(l), e), ()), (2, bnot(bor_(l, e)), ())])
    return some(r) if c.meth == 'partial_cmp' else r
@model('Ordering.is_lt', 'Ordering.is_le', 'Ordering.is_gt', 'Ordering.is_ge', 'Ordering.is_eq', 'Ordering.is_ne')
def _ordis(c):
    e = E(c, 0); g = {0: FALSE, 1: FALSE, 2: FALSE}
    for v, gg, _ in en_alts(e): g[v] = gg
    return G({'is_lt': g[0], 'is_le': bor_(g[0], g[1]), 'is_gt': g[2], 'is_ge': bor_(g[2], g[1]), 'is_eq': g[1], 'is_ne': bnot(g[1])}[c.meth])
_OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
def arith(c, op, a, b, ty):
    """operator-trait arithmetic on primitives (debug semantics: overflow panics)"""
    if ty in INT and op in ('Add', 'Sub', 'Mul'):
        t = c.ev.binop(op + 'WithOverflow', a, b, ty)
        c.panic_unless(bnot(t.args[1].args[0]), 'Overflow:' + op)
        return t.args[0]
    if ty in INT and op in ('Div', 'Rem'):
        c.panic_unless(bnot(eq(b, I(0))), 'DivisionByZero')
    if ty in INT and op in ('Shl', 'Shr'):
        lo, hi = INT[ty]; bits = (hi - lo + 1).bit_length() - 1
        c.panic_unless(lt(b, I(bits)), 'Overflow:' + op)
    return c.ev.binop(op, a, b, ty)
@model('Add.add', 'Sub.sub', 'Mul.mul', 'Div.div', 'Rem.rem', 'BitAnd.bitand', 'BitOr.bitor', 'BitXor.bitxor', 'Shl.shl', 'Shr.shr')
def _opt(c):
    ty = strip_ref(c.argtys[0])
    a, b = c.val(0), c.val(1)
    op = _OPS[c.meth]
    if 'Wrapping<' in ty:
        return tup(wrapop(c, op, a.args[0], b.args[0] if b.op == 'tup' else b, targs(ty)[0]))
    if ty not in INT and ty not in ('f64', 'f32', 'bool'): raise Unsupported('operator on ' + ty)
    return arith(c, op, a, b, ty)
def wrapop(c, op, a, b, ty):
    lo, hi = INT[ty]; bits = (hi - lo + 1).bit_length() - 1
    if lo < 0: raise Unsupported('signed wrapping')
    if op in ('Shl', 'Shr'):
        b = tmod(b, I(bits))
        return tshl(a, b, bits) if op == 'Shl' else tshr(a, b)
    if op in ('Add', 'Sub', 'Mul'):
        return wrapn({'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b), bits)
    return c.ev.binop(op, a, b, ty)
@model('AddAssign.add_assign', 'SubAssign.sub_assign', 'MulAssign.mul_assign', 'DivAssign.div_assign', 'BitAndAssign.bitand_assign', 'BitOrAssign.bitor_assign', 'BitXorAssign.bitxor_assign',
       'ShlAssign.shl_assign', 'ShrAssign.shr_assign', 'RemAssign.rem_assign')
def _opassign(c):
    ty = strip_ref(c.argtys[0])
    op = _OPS[c.meth[:-7]]
    a = c.load(c.args[0]); b = c.look(c.args[1])
    if 'Wrapping<' in ty:
        c.store(c.args[0], tup(wrapop(c, op, a.args[0], b.args[0] if b.op == 'tup' else b, targs(ty)[0])))
        return UNIT
    if ty == 'std::string::String':
        c.store(c.args[0], cat(a, b)); return UNIT
    c.store(c.args[0], arith(c, op, a, b, ty))
    return UNIT
@model('Not.not')
def _not(c):
    v = c.val(0); ty = strip_ref(c.argtys[0])
    if ty == 'bool': return G(bnot(asB(v)))
    if 'Wrapping<' in ty: return tup(sub(I(INT[targs(ty)[0]][1]), v.args[0]))
    return sub(I(INT[ty][1]), v) if INT[ty][0] == 0 else sub(I(-1), v)
@model('Neg.neg')
def _neg(c):
    v = c.val(0)
    return fop('neg', v) if strip_ref(c.argtys[0]) in ('f64', 'f32') else scale(v, -1)
@model('num.is_nan')
def _isnan(c): return G(bnot(feq(c.args[0], c.args[0])) if c.args[0].op != 'fconst' else (TRUE if fval(c.args[0]) != fval(c.args[0]) else FALSE))
@model('num.floor', 'num.ceil', 'num.round', 'num.trunc', 'num.abs', 'num.sqrt', 'num.powi', 'num.mul_add', 'num.recip', 'num.to_bits', 'num.is_finite', 'num.is_infinite', 'num.exp2', 'num.signum', 'num.powf')
def _fl(c):
    if c.meth.startswith('is_'): return G(pred('f' + c.meth, c.args[0]))
    if c.meth == 'recip': return fop('div', fconst(1.0), c.args[0])
    if c.meth == 'to_bits': return app('to_bits', c.args[0], lo=0, hi=U64)
    if c.argtys[0] == 'f32' and c.meth not in ('abs', 'floor', 'ceil', 'trunc', 'round'): raise Unsupported('f32 ' + c.meth)
    if c.meth == 'powi' and c.args[1].op == 'int' and 0 <= c.args[1].args[0] <= 4:
        r = fconst(1.0) if c.args[1].args[0] == 0 else c.args[0]
        for _ in range(c.args[1].args[0] - 1): r = fop('mul', r, c.args[0])
        return r
    if c.num in INT:
        if c.meth == 'abs': return ite(lt(c.args[0], I(0)), scale(c.args[0], -1), c.args[0])
        raise Unsupported(c.meth)
    return mk('f', c.meth, *c.args)
@model('bool.then', 'bool.then_some')
def _then(c):
    g = asB(c.args[0])
    if c.meth == 'then_some': return opt(g, c.args[1])
    r = call1(c, 0, c.args[1], [], g)
    return NONE if r is None else opt(g, r)
MODELS['num.then'] = _then; MODELS['num.then_some'] = _then

# ------------------------------------------------------------------ ranges
@model('RangeInclusive.new')
def _rinew(c): return tup(c.args[0], c.args[1], G(FALSE))
@model('RangeInclusive.contains', 'Range.contains', 'RangeFrom.contains', 'RangeTo.contains', 'RangeToInclusive.contains', 'RangeBounds.contains')
def _rcontains(c):
    r = c.val(0); x = c.val(1); ty = strip_ref(c.argtys[0])
    h = head(ty).rsplit('::', 1)[-1]
    ety = targs(ty)[0]
    ge_ = lambda a, b: c.ev.compare('Ge', a, b, ety)
    if h == 'RangeInclusive': return G(band(ge_(x, r.args[0]), ge_(r.args[1], x)))
    if h == 'Range': return G(band(ge_(x, r.args[0]), c.ev.compare('Lt', x, r.args[1], ety)))
    if h == 'RangeFrom': return G(ge_(x, r.args[0]))
    if h == 'RangeTo': return G(c.ev.compare('Lt', x, r.args[0], ety))
    return G(ge_(r.args[0], x))
@model('RangeInclusive.start', 'RangeInclusive.end')
def _ristart(c):
    r = c.val(0); return rv(r.args[0 if c.meth == 'start' else 1])
@model('Range.is_empty', 'RangeInclusive.is_empty')
def _rempty(c):
    r = c.val(0)
    return G(bnot(lt(r.args[0], r.args[1]))) if len(r.args) == 2 else G(lt(r.args[1], r.args[0]))

def range_bounds(c, r, ty, n):
    """(lo, hi) of a range index value over a sequence of length n"""
    h = head(ty).rsplit('::', 1)[-1]
    if h == 'RangeFull': return I(0), n
    if h == 'Range': return r.args[0], r.args[1]
    if h == 'RangeFrom': return r.args[0], n
    if h == 'RangeTo': return I(0), r.args[0]
    if h == 'RangeInclusive': return r.args[0], add(r.args[1], I(1))
    if h == 'RangeToInclusive': return I(0), add(r.args[0], I(1))
    raise Unsupported('index by ' + ty)

# ------------------------------------------------------------------ sequences
def seqval(c, i=0):
    return c.val(i)
@model('[T].len', 'Vec.len', 'String.len', 'str.len', 'ExactSizeIterator.len')
def _len(c):
    v = c.val(0)
    if v.op in ('iter', 'usrc'): return it_remaining(c, v)
    return seqlen(v)
@model('[T].is_empty', 'Vec.is_empty', 'String.is_empty', 'str.is_empty')
def _isempty(c): return G(eq(seqlen(c.val(0)), I(0)))
@model('Vec.new', 'String.new')
def _vnew(c): return EMPTY
@model('Vec.with_capacity', 'String.with_capacity')
def _vcap(c):
    c.ev.pc = c.pc
    c.ev.event('alloc_abort', c.args[0], c.ty)
    return EMPTY
@model('Vec.reserve', 'String.reserve', 'Vec.reserve_exact', 'String.reserve_exact', 'HashMap.reserve', 'HashSet.reserve')
def _vres(c):
    c.ev.pc = c.pc
    c.ev.event('alloc_abort', c.args[1], strip_ref(c.argtys[0]))
    return UNIT
@model('Vec.try_reserve', 'Vec.try_reserve_exact', 'String.try_reserve', 'String.try_reserve_exact')
def _vtry(c):
    c.ev.pc = c.pc
    n = sum(1 for e in c.ev.events if e[0] == 'alloc_try')
    c.ev.event('alloc_try', c.args[1], strip_ref(c.argtys[0]))
    return result(bnot(rawpred('allocfail', c.args[1])), UNIT, app('reserve_error', sort='obj'))
@model('Vec.push')
def _vpush(c):
    v = c.load(c.args[0])
    c.store(c.args[0], cat(v, elt(c.args[1])))
    return UNIT
@model('String.push')
def _spush(c):
    v = c.load(c.args[0]); x = c.args[1]
    c.store(c.args[0], cat(v, charstr(x)))
    return UNIT
def charstr(x):
    if x.op == 'int': return mk('str', chr(x.args[0]))
    if x.op == 'ite': return seq_ite(x.args[0], charstr(x.args[1]), charstr(x.args[2]))
    c_, d = lin_parts(x)
    for t in d:
        if t.op == 'ite':
            g = t.args[0]
            return seq_ite(g, charstr(resolve_ite(x, g, True)), charstr(resolve_ite(x, g, False)))
    return app('charstr', x, sort='seq')
@model('String.push_str', 'Vec.extend_from_slice', 'Write.write_str', 'Write.write_all', 'Vec.extend_from_within')
def _append(c):
    if c.meth == 'write_all' and not head(strip_ref(c.argtys[0])).endswith('::Vec'): raise Unsupported('write_all')
    v = c.load(c.args[0])
    c.store(c.args[0], cat(v, c.look(c.args[1])))
    return UNIT if c.meth not in ('write_str', 'write_all') else okv(UNIT)
@model('Extend.extend')
def _extend(c):
    it = make_iter(c, c.args[1], c.argtys[1])
    v = c.load(c.args[0])
    st = strip_ref(c.argtys[0])
    if v.op == 'app' and sort_of(v) == 'map' or 'Hash' in head(st):
        return _extend_map(c, it)
    refs = (c.fn['targs'][1] if len(c.fn['targs']) > 1 else '').startswith('&')
    isstr = head(st).endswith('String')
    def piece(x):
        x = c.look(x) if x.op in ('rv', 'ref') else x
        if isstr: return charstr(x) if sort_of(x) == 'int' else x
        return elt(x)
    r = consume(c, it, v, lambda acc, x, cc: cat(acc, piece(x)))
    c.store(c.args[0], r)
    return UNIT
def _extend_map(c, it):
    v = c.load(c.args[0])
    isset = 'HashSet' in strip_ref(c.argtys[0])
    r = consume(c, it, v, lambda acc, x, cc: mins(acc, x, UNIT) if isset else mins(acc, x.args[0], x.args[1]))
    c.store(c.args[0], r)
    return UNIT
@model('Vec.append')
def _vappend(c):
    v, w = c.load(c.args[0]), c.load(c.args[1])
    c.store(c.args[0], cat(v, w)); c.store(c.args[1], EMPTY)
    return UNIT
@model('Vec.clear', 'String.clear')
def _vclear(c):
    c.store(c.args[0], EMPTY); return UNIT
@model('Vec.truncate', 'String.truncate')
def _vtrunc(c):
    v = c.load(c.args[0]); n = seqlen(v)
    c.store(c.args[0], ite(lt(c.args[1], n), slice_(v, I(0), c.args[1]), v)); return UNIT
@model('Vec.pop')
def _vpop(c):
    v = c.load(c.args[0]); n = seqlen(v); g = lt(I(0), n)
    ety = opt_inner(c.ty)
    last = at(v, sub(n, I(1)), ety)
    c.store(c.args[0], ite(g, slice_(v, I(0), sub(n, I(1))), v))
    return opt(g, last)
@model('Vec.resize')
def _vresize(c):
    v = c.load(c.args[0]); n = seqlen(v)
    if v is EMPTY:
        c.store(c.args[0], app('rept', c.args[2], c.args[1], sort='seq'))
    else:
        c.store(c.args[0], ite(le(n, c.args[1]), cat(v, app('rept', c.args[2], sub(c.args[1], n), sort='seq')), slice_(v, I(0), c.args[1])))
    return UNIT
@model('vec.from_elem')
def _fromelem(c):
    c.ev.pc = c.pc
    c.ev.event('alloc_abort', c.args[1], c.ty)
    return app('rept', c.args[0], c.args[1], sort='seq')
@model('Vec.into_boxed_slice', 'Box.into_vec', '[T].into_vec', 'String.into_bytes', 'String.into_boxed_str', 'Vec.from', 'Vec.shrink_to_fit', 'String.shrink_to_fit', 'str.to_string', 'str.to_owned', 'CString.into_bytes', 'CString.into_string')
def _vbox(c):
    if c.meth == 'shrink_to_fit': return UNIT
    return c.val(0)
@model('[T].get', 'str.get', '[T].get_unchecked')
def _sget(c):
    s = c.val(0); n = seqlen(s); ity = c.argtys[1]
    ety = elem_of(c.argtys[0])
    if ity == 'usize':
        g = lt(c.args[1], n); v = rv(at(s, c.args[1], ety))
    else:
        lo, hi = range_bounds(c, c.args[1], ity, n)
        g = band(le(lo, hi), le(hi, n)); v = rv(slice_(s, lo, hi))
    if c.meth == 'get_unchecked': return v
    return opt(g, v)
@model('[T].get_mut')
def _sgetmut(c):
    r = c.args[0]; s = c.load(r); ety = elem_of(c.argtys[0])
    if c.argtys[1] != 'usize': raise Unsupported('get_mut by range')
    return opt(lt(c.args[1], seqlen(s)), c.ev.ext(r, mk('pi', c.args[1], ety)))
@model('Index.index', 'IndexMut.index_mut')
def _index(c):
    st = strip_ref(c.argtys[0]); ity = c.argtys[1]
    if 'HashMap' in head(st):
        m = c.val(0); k = c.look(c.args[1])
        c.panic_unless(mhas(m, k), 'map index')
        return rv(mval(m, k, targs(st)[1]))
    s = c.val(0); n = seqlen(s); ety = elem_of(st)
    if ity == 'usize':
        c.panic_unless(lt(c.args[1], n), 'BoundsCheck')
        if c.meth == 'index': return rv(at(s, c.args[1], ety))
        if c.args[0].op == 'sref': return c.ev.ext(c.args[0].args[0], mk('pi', add(c.args[0].args[1], c.args[1]), ety))
        return c.ev.ext(c.args[0], mk('pi', c.args[1], ety))
    lo, hi = range_bounds(c, c.args[1], ity, n)
    c.panic_unless(band(le(lo, hi), le(hi, n)), 'slice bounds')
    if c.meth == 'index': return rv(slice_(s, lo, hi))
    if c.args[0].op == 'sref': return mk('sref', c.args[0].args[0], add(c.args[0].args[1], lo), add(c.args[0].args[1], hi))
    return mk('sref', c.args[0], lo, hi)
@model('[T].copy_from_slice', '[T].clone_from_slice')
def _cfs(c):
    src = c.look(c.args[1]); dst = c.args[0]
    n = seqlen(c.val(0))
    c.panic_unless(eq(n, seqlen(src)), 'copy_from_slice length')
    if dst.op == 'ref': c.store(dst, src)
    elif dst.op == 'sref':
        base = c.load(dst.args[0]); lo, hi = dst.args[1], dst.args[2]
        L = seqlen(base)
        c.store(dst.args[0], cat(slice_(base, I(0), lo), src, slice_(base, hi, L)))
    else: raise Unsupported('copy_from_slice into ' + show(dst)[:200])
    return UNIT
@model('[T].fill')
def _fill(c):
    v = c.load(c.args[0]); c.store(c.args[0], app('rept', c.args[1], seqlen(v), sort='seq')); return UNIT
@model('[T].first', '[T].last')
def _first(c):
    s = c.val(0); n = seqlen(s)
    return opt(lt(I(0), n), rv(at(s, I(0) if c.meth == 'first' else sub(n, I(1)), elem_of(c.argtys[0]))))
@model('[T].split_at')
def _splitat(c):
    s = c.val(0); n = seqlen(s); m = c.args[1]
    c.panic_unless(le(m, n), 'split_at')
    return tup(rv(slice_(s, I(0), m)), rv(slice_(s, m, n)))
@model('[T].split_at_checked')
def _splitatc(c):
    s = c.val(0); n = seqlen(s); m = c.args[1]
    return opt(le(m, n), tup(rv(slice_(s, I(0), m)), rv(slice_(s, m, n))))
@model('[T].split_first', '[T].split_first_chunk', '[T].first_chunk', '[T].last_chunk')
def _splitfirst(c):
    s = c.val(0); n = seqlen(s); ety = elem_of(c.argtys[0])
    if c.meth == 'split_first':
        return opt(lt(I(0), n), tup(rv(at(s, I(0), ety)), rv(slice_(s, I(1), n))))
    k = [int(x) for x in c.fn['targs'] if x.isdigit()]
    if not k:
        m = re.search(r'; (\d+)\]', c.ty); k = [int(m.group(1))]
    k = k[0]
    g = le(I(k), n)
    if c.meth == 'last_chunk':
        return opt(g, rv(to_arr(slice_(s, sub(n, I(k)), n), k, ety)))
    if c.meth == 'first_chunk': return opt(g, rv(to_arr(s, k, ety)))
    return opt(g, tup(rv(to_arr(s, k, ety)), rv(slice_(s, I(k), n))))
@model('[T].contains')
def _scontains(c):
    s = c.val(0); x = c.val(1); n = seqlen(s); ety = elem_of(c.argtys[0])
    k = fresh('k', 0, MAXLEN)
    return G(exists(n, lam(k, c.ev.compare('Eq', at(s, k, ety), x, ety))))
@model('[T].starts_with')
def _startswith(c):
    s = c.val(0); p = c.val(1); n = seqlen(p)
    if n.op != 'int': raise Unsupported('starts_with')
    g = le(n, seqlen(s))
    for i in range(n.args[0]): g = band(g, eq(at(s, I(i)), at(p, I(i))))
    return G(g)
@model('[T].sort', '[T].sort_unstable', '[T].sort_by_key', '[T].sort_by', '[T].sort_unstable_by_key', '[T].sort_unstable_by', '[T].reverse')
def _sort(c):
    v = c.load(c.args[0])
    c.store(c.args[0], app(c.meth, v, sort='seq'))
    return UNIT
def vec_of(c):
    ty = strip_ref(c.argtys[0])
    return c.load(c.args[0]), targs(ty)[0] if head(ty).endswith('Vec') else elem_of(ty)
@model('Vec.retain', 'Vec.retain_mut')
def _vretain(c):
    v, ety = vec_of(c)
    if c.meth == 'retain_mut': raise Unsupported('retain_mut')
    f = c.args[1]; cal = c.callable_(0)
    def step(acc, i, cc):
        x = at(v, i, ety)
        k = cc.apply(cal, f, [rv(x)])
        return acc if k is None else ite(asB(k), cat(acc, elt(x)), acc)
    c.store(c.args[0], consume(c, mk('iter', mk('src', mk('drange', I(0), seqlen(v)), I(0))), EMPTY, step))
    return UNIT
@model('Vec.dedup', 'Vec.dedup_by_key', 'Vec.dedup_by')
def _vdedup(c):
    # an element stays when it differs from the one before it (equality of keys is transitive)
    v, ety = vec_of(c)
    if c.meth == 'dedup_by': raise Unsupported('dedup_by')
    def key(cc, x, g):
        return x if c.meth == 'dedup' else cc.apply(c.callable_(0), c.args[1], [rv(x)], g)
    kty = ety if c.meth == 'dedup' else None
    def same(cc, x, y):
        if x.op == 'tup' and y.op == 'tup': return band(*[same(cc, a, b) for a, b in zip(x.args, y.args)])
        if sort_of(x) in ('int', 'float'): return cc.ev.compare('Eq', x, y, kty or '?')
        raise Unsupported('dedup of ' + ety)
    def step(acc, i, cc):
        x, y = at(v, i, ety), at(v, sub(i, I(1)), ety)
        inner = lt(I(0), i)
        kx, ky = key(cc, x, inner), key(cc, y, inner)
        if ety.startswith('(') and c.meth == 'dedup': kx, ky = cc.ev.expand(x, ety), cc.ev.expand(y, ety)
        return cat(acc, elt(x)) if kx is None else ite(band(inner, same(cc, kx, ky)), acc, cat(acc, elt(x)))
    c.store(c.args[0], consume(c, mk('iter', mk('src', mk('drange', I(0), seqlen(v)), I(0))), EMPTY, step))
    return UNIT
@model('String.from_utf8', 'str.from_utf8')
def _futf8(c):
    s = c.val(0)
    return result(pred('utf8', s), s if c.meth == 'from_utf8' and c.argtys[0].startswith('std::vec') else rv(s), app('utf8err', sort='obj'))
@model('String.from_utf8_unchecked', 'String.from_utf8_lossy')
def _futf8u(c): return c.val(0)
@model('ToString.to_string')
def _tostring(c):
    ty = strip_ref(c.argtys[0])
    v = c.val(0)
    if ty in ('str', 'std::string::String'): return v
    if ty == 'char': return charstr(v)
    key = f'<{ty} as std::fmt::Display>::fmt'
    b = c.ev.p.bodies.get(key)
    if b is not None: return display_of(c, b, v)
    return app('display', v, ty, sort='seq')
def display_of(c, body, v):
    """to_string of a type whose Display writes one string; panics if fmt fails"""
    c.ev.tmpn += 1
    cell = f'@f{c.ev.tmpn}'
    st = dict(c.st); st[cell] = mk('fmtbuf', EMPTY)
    pc, st, r = c.ev.call_body(body, [rv(v), mk('ref', cell)], st, c.pc)
    c.pc, c.st = pc, st
    out = st.pop(cell)
    g0, f0, g1, f1 = alts2(c.ev.expand(r, 'std::result::Result<(), std::fmt::Error>'))
    c.panic_unless(g0, 'Display returned an error')
    return fmtbuf(out)
def fmtbuf(b):
    if b.op == 'fmtbuf': return b.args[0]
    if b.op == 'ite': return ite(b.args[0], fmtbuf(b.args[1]), fmtbuf(b.args[2]))
    return app('fmtout', b, sort='seq')
tm._STRUCT = tm._STRUCT + ('fmtbuf',)
@model('Formatter.write_str')
def _wstr(c):
    r = c.args[0]; v = c.load(r)
    if v.op != 'fmtbuf': raise Unsupported('formatter state')
    c.store(r, mk('fmtbuf', cat(v.args[0], c.look(c.args[1]))))
    return okv(UNIT)
@model('Formatter.write_fmt')
def _wfmt(c):
    r = c.args[0]; v = c.load(r)
    if v.op != 'fmtbuf': raise Unsupported('formatter state')
    c.store(r, mk('fmtbuf', cat(v.args[0], app('formatted', c.args[1], sort='seq'))))
    return okv(UNIT)
@model('Formatter.pad')
def _pad(c): return _wstr(c)
@model('Argument.new_display', 'Argument.new_debug', 'Argument.from_usize', 'Argument.new_lower_hex', 'Argument.new_upper_hex')
def _fa(c): return app('fmtarg', c.meth, c.val(0), c.argtys[0], sort='obj')
@model('Arguments.new', 'Arguments.new_const', 'Arguments.new_v1', 'Arguments.new_v1_formatted', 'Arguments.from_str', 'Arguments.from_str_nonconst')
def _fargs(c): return app('fmtargs', *[c.look(a) for a in c.args], sort='obj')
@model('fmt.format')
def _fformat(c): return app('formatted', c.args[0], sort='seq')
@model('panicking.panic', 'panicking.panic_fmt', 'panicking.panic_display', 'rt.panic_fmt', 'panicking.panic_nounwind', 'panicking.unreachable_display', 'rt.begin_panic', 'panicking.assert_failed', 'std.process::abort', 'process.abort', 'process.exit',
       'option.unwrap_failed', 'option.expect_failed', 'result.unwrap_failed', 'panicking.panic_explicit', 'panicking.panic_str_2015', 'std.begin_panic', 'panicking.begin_panic')
def _panic(c):
    c.panic_unless(FALSE, 'explicit')
    return UNIT
@model('str.chars', 'str.bytes')
def _chars(c): return mk('iter', mk('src', mk('dseq', c.val(0), 'v', 'u8'), I(0)))
@model('str.repeat', '[T].repeat')
def _repeat(c):
    return app('repeat', c.val(0), c.args[1], sort='seq')
@model('[T].chunks_exact', '[T].chunks', '[T].array_chunks', '[T].as_chunks')
def _chunks(c):
    n = c.args[1]
    if n.op != 'int': raise Unsupported('chunks of symbolic size')
    s = c.val(0)
    if n.args[0] < 1: raise Unsupported('chunks of size zero')
    if c.meth == 'chunks': return mk('iter', mk('src', mk('dchunks', s, n.args[0], 'rest'), I(0)))
    return mk('iter', mk('src', mk('dchunks', s, n.args[0]), I(0)))
@model('ChunksExact.remainder')
def _crem(c): raise Unsupported('remainder')
@model('[T].concat', '[T].join')
def _concat(c):
    v = c.val(0)
    if v.op == 'arr': return cat(*[c.look(x) for x in v.args]) if v.args else EMPTY
    raise Unsupported('concat')
@model('[T].iter', 'Vec.iter', '[T].into_iter')
def _siter(c):
    return mk('iter', mk('src', mk('dseq', c.val(0), 'r', elem_of(c.argtys[0])), I(0)))

# ------------------------------------------------------------------ maps / sets
def kv(ty):
    a = targs(strip_ref(ty))
    k = a[0]
    v = a[1] if 'HashMap' in head(strip_ref(ty)) or 'BTreeMap' in head(strip_ref(ty)) else '()'
    return k, v
def key(c, i):
    a = c.args[i]
    return c.look(a)
for _n in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
    MODELS[f'{_n}.new'] = lambda c: MNEW
    MODELS[f'{_n}.with_hasher'] = lambda c: MNEW
    def _mwc(c):
        c.ev.pc = c.pc
        c.ev.event('alloc_abort', c.args[0], c.ty)
        return MNEW
    MODELS[f'{_n}.with_capacity'] = _mwc
    MODELS[f'{_n}.len'] = lambda c: mlen(c.val(0))
    MODELS[f'{_n}.is_empty'] = lambda c: G(eq(mlen(c.val(0)), I(0)))
    def _mclear(c):
        c.store(c.args[0], MNEW); return UNIT
    MODELS[f'{_n}.clear'] = _mclear
    MODELS[f'{_n}.contains_key'] = lambda c: G(mhas(c.val(0), key(c, 1)))
    MODELS[f'{_n}.contains'] = MODELS[f'{_n}.contains_key']
    MODELS[f'{_n}.shrink_to_fit'] = _nop
    def _mget(c):
        m = c.val(0); k = key(c, 1); kt, vt = kv(c.argtys[0])
        if vt == '()': return opt(mhas(m, k), rv(k))
        return opt(mhas(m, k), rv(mval(m, k, vt)))
    MODELS[f'{_n}.get'] = _mget
    def _mgetmut(c):
        r = c.args[0]; m = c.load(r); k = key(c, 1); kt, vt = kv(c.argtys[0])
        return opt(mhas(m, k), c.ev.ext(r, mk('pk', k, vt)))
    MODELS[f'{_n}.get_mut'] = _mgetmut
    def _mins(c):
        r = c.args[0]; m = c.load(r); k = c.args[1]; kt, vt = kv(c.argtys[0])
        had = mhas(m, k)
        if vt == '()':
            c.store(r, mins(m, k, UNIT)); return G(bnot(had))
        old = mval(m, k, vt)
        c.store(r, mins(m, k, c.args[2]))
        return opt(had, old)
    MODELS[f'{_n}.insert'] = _mins
    def _mrem(c):
        r = c.args[0]; m = c.load(r); k = key(c, 1); kt, vt = kv(c.argtys[0])
        had = mhas(m, k)
        old = mval(m, k, vt)
        c.store(r, mrem(m, k))
        if c.meth == 'remove_entry': return opt(had, tup(k, old))
        return G(had) if vt == '()' else opt(had, old)
    MODELS[f'{_n}.remove'] = _mrem
    MODELS[f'{_n}.remove_entry'] = _mrem
    def _mentry(c):
        r = c.args[0]; m = c.load(r); k = c.args[1]; kt, vt = kv(c.argtys[0])
        h = mhas(m, k)
        e = tup(r, k, mk('tyname', vt))
        return mken([(0, h, (e,)), (1, bnot(h), (e,))])
    MODELS[f'{_n}.entry'] = _mentry
    def _miter(c):
        m = c.val(0); kt, vt = kv(c.argtys[0])
        mode = {'iter': 'kv', 'keys': 'k', 'values': 'v', 'into_keys': 'K', 'into_values': 'V', 'drain': 'KV'}[c.meth]
        if vt == '()': mode = 'k' if c.meth == 'iter' else 'K'
        return mk('iter', mk('src', mk('dmap', m, mode, kt, vt), I(0)))
    for _q in ('iter', 'keys', 'values', 'into_keys', 'into_values'): MODELS[f'{_n}.{_q}'] = _miter
    def _mitermut(c):
        r = c.args[0]; m = c.load(r); kt, vt = kv(c.argtys[0])
        return mk('iter', mk('src', mk('dmap', m, 'vmut' if c.meth == 'values_mut' else 'kvmut', kt, vt, r), I(0)))
    MODELS[f'{_n}.values_mut'] = _mitermut
    MODELS[f'{_n}.iter_mut'] = _mitermut
def ent(c, i=0):
    e = c.args[i]
    e = e if e.op == 'en' else c.ev.expand(e, c.argtys[i])
    g0, f0, g1, f1 = alts2(e)
    x = (f0 or f1)[0]
    return e, g0, g1, x.args[0], x.args[1], x.args[2].args[0]
def eref(c, r, k, vt): return c.ev.ext(r, mk('pk', k, vt))
@model('Entry.or_default', 'Entry.or_insert', 'Entry.or_insert_with', 'Entry.or_insert_with_key', 'Entry.insert_entry')
def _ordef(c):
    e, g0, g1, r, k, vt = ent(c)
    if c.meth == 'or_default': d = default_of(c, vt) if g1 is not FALSE else None
    elif c.meth == 'or_insert': d = c.args[1]
    elif c.meth == 'or_insert_with': d = call1(c, 0, c.args[1], [], g1)
    else: raise Unsupported(c.meth)
    if d is not None and g1 is not FALSE:
        m = c.load(r)
        c.store(r, ite(g0, m, mins(m, k, d)))
    return eref(c, r, k, vt)
@model('Entry.and_modify')
def _andmod(c):
    e, g0, g1, r, k, vt = ent(c)
    call1(c, 0, c.args[1], [eref(c, r, k, vt)], g0)
    return e
@model('Entry.key')
def _ekey(c):
    v = c.val(0)
    e = c.ev.expand(v, strip_ref(c.argtys[0]))
    g0, f0, g1, f1 = alts2(e)
    return rv((f0 or f1)[0].args[1])
def entv(c, i=0):
    v = c.args[i]
    v = c.look(v) if v.op in ('ref', 'rv') else v
    return v.args[0], v.args[1], v.args[2].args[0]
@model('OccupiedEntry.get', 'OccupiedEntry.get_mut', 'OccupiedEntry.into_mut', 'OccupiedEntry.insert', 'OccupiedEntry.remove', 'OccupiedEntry.key', 'OccupiedEntry.remove_entry')
def _occ(c):
    r, k, vt = entv(c); m = c.load(r)
    if c.meth == 'get': return rv(mval(m, k, vt))
    if c.meth == 'key': return rv(k)
    if c.meth in ('get_mut', 'into_mut'): return eref(c, r, k, vt)
    old = mval(m, k, vt)
    if c.meth == 'insert':
        c.store(r, mins(m, k, c.args[1])); return old
    c.store(r, mrem(m, k))
    return old if c.meth == 'remove' else tup(k, old)
@model('VacantEntry.insert', 'VacantEntry.key', 'VacantEntry.into_key')
def _vac(c):
    r, k, vt = entv(c)
    if c.meth == 'key': return rv(k)
    if c.meth == 'into_key': return k
    m = c.load(r)
    c.store(r, mins(m, k, c.args[1]))
    return eref(c, r, k, vt)
@model('HashMap.retain', 'HashSet.retain')
def _retain(c): raise Unsupported('retain')

# ------------------------------------------------------------------ iterators
# value forms:  iter(src(domain, pos), stage*...)   usrc(value, next-key)   tup(start, end) for Range
def is_range(ty): return head(ty).endswith('ops::Range') or head(ty).endswith('range::Range')
def is_rangei(ty): return head(ty).endswith('RangeInclusive')
def is_rangef(ty): return head(ty).endswith('RangeFrom')
def make_iter(c, v, ty):
    """IntoIterator::into_iter of value v"""
    if v.op in ('iter', 'usrc'): return v
    if v.op == 'ite': return ite(v.args[0], make_iter(c, v.args[1], ty), make_iter(c, v.args[2], ty))
    if is_range(ty): return mk('iter', mk('src', mk('drange', v.args[0], v.args[1]), I(0)))
    if is_rangei(ty): return mk('iter', mk('src', mk('drange', v.args[0], add(v.args[1], I(1))), I(0)))
    if is_rangef(ty): return mk('iter', mk('src', mk('drange', v.args[0], I(1 << 64)), I(0)))
    ex = (c.fn.get('extra') or {})
    kk = ex.get('into_iter:' + ty)
    if kk and kk in c.ev.p.bodies:
        fn = dict(c.fn); 
        for m_, h in c.ev.contracts:
            f2 = {'path': 'std::iter::IntoIterator::into_iter', 'key': kk, 'targs': [ty], 'trait': 'std::iter::IntoIterator', 'extra': ex, 'body': True, 'callables': [None], 'rpath': kk}
            if m_(f2):
                c2 = type(c)(c.ev, c.st, c.pc, f2, [v], [ty], '?'); c2.frame = c.frame
                r = h(c2)
                if r is not NotImplemented:
                    c.st, c.pc = c2.st, c2.pc
                    return r
        pc, st, r = c.ev.call_body(c.ev.p.bodies[kk], [v], c.st, c.pc)
        c.pc, c.st = pc, st
        rt = c.ev.p.bodies[kk]['locals'][0][0]
        return wrap_user(c, r, rt)
    kk = ex.get('next:' + ty)
    if kk: return wrap_user(c, v, ty)
    st = strip_ref(ty)
    if ty.startswith('&mut '):
        cur = c.load(v)
        if cur.op in ('iter', 'usrc') or is_range(st): return mk('usrc', mk('byref', v, mk('tyname', st)), 'byref')
        if 'HashMap' in head(st):
            k_, v_ = kv(st)
            return mk('iter', mk('src', mk('dmap', cur, 'kvmut', k_, v_, v), I(0)))
        raise Unsupported('iteration by &mut ' + st)
    if 'HashMap' in head(st) or 'HashSet' in head(st):
        k_, v_ = kv(st)
        byref = ty.startswith('&')
        mode = ('kv' if byref else 'KV') if v_ != '()' else ('k' if byref else 'K')
        return mk('iter', mk('src', mk('dmap', c.look(v), mode, k_, v_), I(0)))
    if st.startswith('[') or head(st).endswith('::Vec') or head(st).endswith('::Box'):
        return mk('iter', mk('src', mk('dseq', c.look(v), 'r' if ty.startswith('&') else 'v', elem_of(st) if not head(st).endswith('::Box') else elem_of(targs(st)[0])), I(0)))
    if head(st).endswith('::Option'):
        e = c.ev.expand(c.look(v) if ty.startswith('&') else v, st)
        g0, _, g1, f1 = alts2(e)
        if g1 is TRUE: return mk('iter', mk('src', mk('dlist', f1[0] if not ty.startswith('&') else rv(f1[0])), I(0)))
        if g1 is FALSE: return mk('iter', mk('src', mk('dlist'), I(0)))
        return mk('iter', mk('src', mk('dite', G(g1), mk('dlist', f1[0] if not ty.startswith('&') else rv(f1[0])), mk('dlist')), I(0)))
    if ty == '?' and v.op != 'rv' and sort_of(v) == 'seq':
        ps = v.args if v.op == 'app' and v.args[0] == 'cat' else (v,)
        return mk('iter', mk('src', mk('dseq', v, 'v', 'u8' if all(x.op == 'app' and x.args[0] == 'bytes' for x in ps) else '?'), I(0)))
    raise Unsupported('iterate ' + ty)
def wrap_user(c, v, ty):
    """user-defined iterator struct value"""
    if v.op in ('iter', 'usrc'): return v
    return v
@model('IntoIterator.into_iter')
def _intoiter(c):
    ty = c.argtys[0]
    v = c.args[0]
    if is_range(ty) and v.op == 'tup': return v if c.ty == ty else make_iter(c, v, ty)
    return make_iter(c, v, ty)

def stage(kind, *args): return mk('stage', kind, *args)
def st_of(c, it, ty):
    """coerce an adapter's receiver into iter form"""
    if it.op == 'iter': return it
    if it.op == 'ite':
        return ite(it.args[0], st_of(c, it.args[1], ty), st_of(c, it.args[2], ty))
    if is_range(ty) or is_rangei(ty) or is_rangef(ty): return make_iter(c, it, ty)
    ex = c.fn.get('extra') or {}
    k = ex.get('next:' + ty)
    if it.op == 'usrc': return mk('iter', it)
    if k and k in c.ev.p.bodies: return mk('iter', mk('usrc', it, k))
    if ty.startswith('&mut '):
        return mk('iter', mk('usrc', mk('byref', it, mk('tyname', strip_ref(ty))), 'byref'))
    raise Unsupported('adapter on ' + ty)
def calname(c, i): return json.dumps(c.callable_(i), sort_keys=True)
@model('Iterator.map', 'Iterator.filter', 'Iterator.filter_map', 'Iterator.take_while', 'Iterator.skip_while', 'Iterator.inspect', 'Iterator.map_while')
def _itmap(c):
    it = st_of(c, c.args[0], c.argtys[0])
    if c.meth == 'skip_while':
        return mk('iter', *it.args, stage('skip_while', calname(c, 0), c.args[1], G(FALSE)))
    if c.meth in ('take_while', 'map_while'):
        return mk('iter', *it.args, stage(c.meth, calname(c, 0), c.args[1]))
    return mk('iter', *it.args, stage(c.meth, calname(c, 0), c.args[1]))
@model('Iterator.enumerate')
def _itenum(c):
    it = st_of(c, c.args[0], c.argtys[0])
    return mk('iter', *it.args, stage('enumerate', I(0)))
@model('Iterator.copied', 'Iterator.cloned')
def _itcopied(c):
    it = st_of(c, c.args[0], c.argtys[0])
    return mk('iter', *it.args, stage('copied'))
@model('Iterator.by_ref')
def _itbyref(c): return c.args[0]
@model('Iterator.fuse', 'Iterator.peekable')
def _itfuse(c):
    if c.meth == 'peekable': raise Unsupported('peekable')
    return st_of(c, c.args[0], c.argtys[0])
@model('Iterator.zip')
def _itzip(c):
    it = st_of(c, c.args[0], c.argtys[0])
    fn2 = c.fn
    b = make_iter(c, c.args[1], c.argtys[1])
    b = st_of(c, b, c.argtys[1])
    if len(it.args) == 1 and len(b.args) == 1 and all(x.args[0].op == 'src' and x.args[0].args[1].op == 'int' and x.args[0].args[1].args[0] == 0 for x in (it, b)):
        return mk('iter', mk('src', mk('dzip', it.args[0].args[0], b.args[0].args[0]), I(0)))
    return mk('iter', *it.args, stage('zip', b))
@model('Iterator.take', 'Iterator.skip')
def _ittake(c):
    it = st_of(c, c.args[0], c.argtys[0])
    if it.args[0].op == 'src' and all(x.args[0] in ('map', 'copied', 'enumerate') for x in it.args[1:]):
        d, pos = it.args[0].args
        if c.meth == 'take': return mk('iter', mk('src', mk('dtake', d, add(pos, c.args[1])), pos), *it.args[1:])
        if not any(x.args[0] == 'map' for x in it.args[1:]) and (c.args[1].op != 'int' or d.op in ('dmat', 'dmap')):
            n = c.args[1]; left = sub(dlen(d), pos)
            n = ite(le(n, left), n, left)
            st = [stage('enumerate', add(x.args[1], n)) if x.args[0] == 'enumerate' else x for x in it.args[1:]]
            return mk('iter', mk('src', d, add(pos, n)), *st)
    return mk('iter', *it.args, stage(c.meth, c.args[1]))
@model('Iterator.rev', 'Iterator.step_by', 'Iterator.chain', 'Iterator.cycle')
def _itrev(c):
    it = st_of(c, c.args[0], c.argtys[0])
    def dom(it, op):
        ok = ('map', 'copied')
        if it.args[0].op != 'src' or it.args[0].args[1] is not I(0) or any(s.args[0] not in ok for s in it.args[1:]):
            raise Unsupported(op + ' of a staged iterator')
        return it.args[0].args[0]
    if c.meth == 'rev':
        return mk('iter', mk('src', mk('drev', dom(it, 'rev')), I(0)), *it.args[1:])
    if c.meth == 'step_by':
        n = c.args[1]
        if n.op != 'int' or n.args[0] == 0: raise Unsupported('step_by symbolic')
        return mk('iter', mk('src', mk('dstep', dom(it, 'step_by'), n.args[0]), I(0)), *it.args[1:])
    if c.meth == 'chain':
        b = st_of(c, make_iter(c, c.args[1], c.argtys[1]), c.argtys[1])
        if len(it.args) > 1 or len(b.args) > 1:
            raise Unsupported('chain of staged iterators')
        return mk('iter', mk('src', mk('dchain', dom(it, 'chain'), dom(b, 'chain')), I(0)))
    raise Unsupported(c.meth)
@model('Iterator.flatten', 'Iterator.flat_map')
def _itflat(c):
    it = st_of(c, c.args[0], c.argtys[0])
    if c.meth == 'flat_map':
        it = mk('iter', *it.args, stage('map', calname(c, 0), c.args[1]))
        ity = c.fn['targs'][1] if len(c.fn['targs']) > 1 else '?'
    else:
        ity = '?'
    return mk('iter', *it.args, stage('flatten', ity))

def src_step(c, s, put):
    """advance a source; put(newsrc) writes it back.  -> (has, item)"""
    ev = c.ev
    if s.op == 'src':
        d, pos = s.args
        n = dlen(d)
        has = lt(pos, n)
        item = delem(d, pos)
        put(mk('src', d, add(pos, I(1))), has)
        return has, item
    if s.op == 'usrc':
        v, k = s.args
        if k == 'byref':
            ref, tn = v.args
            r = next_on(c, ref, tn.args[0])
            g0, _, g1, f1 = alts2(r)
            return g1, (f1[0] if f1 else UNIT)
        ev.tmpn += 1
        cell = f'@u{ev.tmpn}'
        st = dict(c.st); st[cell] = v
        pc, st, r = ev.call_body(ev.p.bodies[k], [mk('ref', cell)], st, c.pc)
        c.pc = pc
        nv = st.pop(cell)
        c.st = st
        r = ev.expand(r, ev.p.bodies[k]['locals'][0][0])
        g0, _, g1, f1 = alts2(r)
        put(mk('usrc', nv, k), TRUE)
        return g1, (f1[0] if f1 else UNIT)
    if s.op == 'ite':
        raise Unsupported('choice of iterators')
    raise Unsupported('source ' + s.op)

def it_step(c, ref):
    """one next() on the iter stored at ref -> (has, skip, item)"""
    it = c.load(ref)
    if it.op == 'ite': raise Unsupported('choice of iterators')
    if it.op != 'iter': it = mk('iter', it)
    srcs = it.args[0]
    state = {'src': srcs}
    def put(ns, g): state['src'] = ite(g, ns, state['src']) if g is not TRUE else ns
    has, item = src_step(c, srcs, put)
    has = restrict(has, c.pc) if has not in (TRUE, FALSE) else has
    note_control(c, has)
    alive = has
    skip = FALSE
    stages = list(it.args[1:])
    for i, sg in enumerate(stages):
        k = sg.args[0]
        if alive is FALSE: break
        if k == 'map':
            item = c.apply(json.loads(sg.args[1]), sg.args[2], [item], alive)
            if item is None: alive = FALSE
        elif k == 'filter':
            r = c.apply(json.loads(sg.args[1]), sg.args[2], [rv(item)], alive)
            b = asB(r)
            skip = bor_(skip, band(alive, bnot(b))); alive = band(alive, b)
        elif k == 'filter_map':
            r = c.apply(json.loads(sg.args[1]), sg.args[2], [item], alive)
            g0, _, g1, f1 = alts2(r if r.op == 'en' else c.ev.expand(r, '?'))
            skip = bor_(skip, band(alive, bnot(g1))); alive = band(alive, g1)
            item = f1[0] if f1 else UNIT
        elif k == 'inspect':
            c.apply(json.loads(sg.args[1]), sg.args[2], [rv(item)], alive)
        elif k == 'copied':
            item = c.look(item)
        elif k == 'enumerate':
            n = sg.args[1]
            item = tup(n, item)
            stages[i] = stage('enumerate', ite(alive, add(n, I(1)), n) if skip is not FALSE else add(n, I(1)))
        elif k == 'zip':
            c.ev.tmpn += 1
            cell = f'@z{c.ev.tmpn}'
            c.st = dict(c.st); c.st[cell] = sg.args[1]
            h2, s2, x2 = it_step(c, mk('ref', cell))
            if s2 is not FALSE: raise Unsupported('zip with filter')
            nb = c.st.pop(cell)
            stages[i] = stage('zip', nb)
            item = tup(item, x2)
            has = band(has, bor_(bnot(alive), h2)); alive = band(alive, h2)
        elif k == 'take':
            n = sg.args[1]
            g = lt(I(0), n)
            note_control(c, g)
            has = band(has, bor_(bnot(alive), g)); alive = band(alive, g)
            stages[i] = stage('take', sub(n, I(1)))
        elif k == 'skip':
            n = sg.args[1]
            if n.op != 'int': raise Unsupported('skip symbolic')
            if n.args[0] > 0:
                if i == 0 and state['src'].op == 'src':
                    # advance the source directly
                    d, pos = srcs.args
                    pos = add(pos, n)
                    has = lt(pos, dlen(d)); alive = has
                    item = delem(d, pos)
                    state['src'] = mk('src', d, add(pos, I(1)))
                    stages[i] = stage('skip', I(0))
                else: raise Unsupported('skip after stages')
        elif k == 'take_while':
            r = c.apply(json.loads(sg.args[1]), sg.args[2], [rv(item)], alive)
            b = asB(r)
            has = band(has, bor_(bnot(alive), b)); alive = band(alive, b)
        elif k == 'map_while':
            r = c.apply(json.loads(sg.args[1]), sg.args[2], [item], alive)
            g0, _, g1, f1 = alts2(r)
            has = band(has, bor_(bnot(alive), g1)); alive = band(alive, g1)
            item = f1[0] if f1 else UNIT
        elif k == 'flatten':
            raise Unsupported('flatten outside a fold')
        else:
            raise Unsupported('stage ' + k)
    new = mk('iter', state['src'], *stages)
    c.store(ref, ite(has, new, it) if has is not TRUE else new)
    return has, skip, item

def note_control(c, g):
    if c.ev.loops:
        lp = c.ev.loops[-1]
        if g is TRUE or g is FALSE: lp.lit = True
        else: lp.sym = True

def next_on(c, ref, ty):
    """Iterator::next on the iterator stored at ref -> Option value"""
    v = c.load(ref)
    if is_range(ty) and v.op == 'tup':
        lo, hi = v.args[0], v.args[1]
        has = restrict(lt(lo, hi), c.pc)
        note_control(c, has)
        c.store(ref, tup(ite(has, add(lo, I(1)), lo), hi))
        return opt(has, lo)
    if is_rangei(ty) and v.op == 'tup':
        lo, hi, ex = v.args
        has = restrict(band(bnot(asB(ex)), le(lo, hi)), c.pc)
        note_control(c, has)
        c.store(ref, tup(ite(band(has, lt(lo, hi)), add(lo, I(1)), lo), hi, G(bor_(asB(ex), band(has, bnot(lt(lo, hi)))))))
        return opt(has, lo)
    if is_rangef(ty) and v.op == 'tup':
        lo = v.args[0]
        c.store(ref, tup(add(lo, I(1))))
        return some(lo)
    if v.op in ('iter', 'usrc'):
        has, skip, item = it_step(c, ref)
        if skip is not FALSE: c.skip = bor_(c.skip, skip)
        if item is None: return NONE
        return opt(has, item)
    ex = c.fn.get('extra') or {}
    k = ex.get('next:' + ty)
    if k:
        pc, st, r = c.ev.call_body(c.ev.p.bodies[k], [ref], c.st, c.pc)
        c.pc, c.st = pc, st
        return c.ev.expand(r, c.ev.p.bodies[k]['locals'][0][0])
    raise Unsupported('next on ' + ty)
@model('Iterator.next')
def _next(c):
    return next_on(c, c.args[0], strip_ref(c.argtys[0]))
@model('DoubleEndedIterator.next_back')
def _nextback(c): raise Unsupported('next_back')

def it_remaining(c, it):
    if it.op == 'iter':
        if any(s.args[0] not in ('map', 'copied', 'enumerate', 'inspect') for s in it.args[1:]): raise Unsupported('len of staged iterator')
        s = it.args[0]
        if s.op == 'src':
            n = sub(dlen(s.args[0]), s.args[1])
            return n
    raise Unsupported('len of iterator')

def consume(c, it, init, step, stop=None, mut=None):
    """fold: acc := step(acc, item, call); stop(item, acc, call) -> guard ends the loop early.
    returns acc (or (acc, exit-info) when stop is given)"""
    ev = c.ev
    # flatten stages are handled by nesting
    if it.op == 'iter':
        for i, sg in enumerate(it.args[1:]):
            if sg.args[0] == 'flatten':
                outer = mk('iter', it.args[0], *it.args[1:1 + i])
                rest = it.args[2 + i:]
                ity = sg.args[1]
                if stop is not None: raise Unsupported('early exit over flat_map')
                def step2(acc, x, cc):
                    inner = st_of(cc, make_iter(cc, x, ity), ity) if x.op != 'iter' else x
                    return consume(cc, mk('iter', *inner.args, *rest), acc, step)
                return consume(c, outer, init, step2)
    ev.tmpn += 1
    n = ev.tmpn
    itc, acc = f'@i{n}', f'@a{n}'
    fnj = c.fn
    st0 = dict(c.st); st0[itc] = it; st0[acc] = init
    from ev import Call, Loop
    def body(st, pc):
        lp = Loop(); lp.frame = None
        ev.loops.append(lp)
        try:
            cc = Call(ev, dict(st), pc, fnj, c.args, c.argtys, c.ty)
            cc.frame = None
            cc.meth = c.meth
            has, skip, item = it_step(cc, mk('ref', itc))
            exits = []
            done = band(cc.pc, bnot(has))
            if done is not FALSE: exits.append(('done', (done, dict(cc.st))))
            sk = band(cc.pc, skip)
            back = None
            if sk is not FALSE: back = (sk, dict(cc.st))
            go = band(cc.pc, has, bnot(skip))
            if go is not FALSE and item is not None:
                cc.pc = go
                if stop is not None:
                    s, upd = stop(item, cc.st[acc], cc)
                    if upd is not None:
                        pass
                    sp = band(cc.pc, s)
                    if sp is not FALSE:
                        st2 = dict(cc.st)
                        if upd is not None: st2[acc] = upd
                        exits.append(('stop', (sp, st2)))
                    cc.pc = band(cc.pc, bnot(s))
                if cc.pc is not FALSE:
                    a = step(cc.st[acc], item, cc) if step else cc.st[acc]
                    if cc.pc is not FALSE:
                        st2 = dict(cc.st); st2[acc] = a
                        back = ev.merge(back, (cc.pc, st2))
        finally:
            ev.loops.pop()
        ev.last_loop = lp
        return back, exits
    res = ev.run_loop(body, c.pc, st0, 'iterator consumer')
    out = {}
    for t, ps in res: out[t] = ev.merge(out.get(t), ps)
    d = out.get('done'); s = out.get('stop')
    m = ev.merge(d, s)
    if m is None:
        c.pc = FALSE
        return init if stop is None else (init, FALSE)
    sg = restrict(s[0], m[0]) if s is not None else FALSE
    c.pc, c.st = m[0], dict(m[1])
    a = c.st.pop(acc); c.st.pop(itc, None)
    if stop is None: return a
    # values separately: accumulators at the two exits
    return (d[1][acc] if d else None), (s[1][acc] if s else None), sg
def recv(c, i=0):
    ty = c.argtys[i]
    v = c.args[i]
    if ty.startswith('&mut '):
        cur = c.load(v)
        return st_of(c, v, ty) if True else None
    return st_of(c, v, ty)
@model('Iterator.count')
def _count(c): return consume(c, recv(c), I(0), lambda a, x, cc: add(a, I(1)))
@model('Iterator.sum', 'Iterator.product')
def _sum(c):
    ty = c.ty
    if ty in INT:
        def stp(a, x, cc):
            x = cc.look(x)
            if c.meth == 'sum':
                r = add(a, x)
                return r
            return mul(a, x)
        r = consume(c, recv(c), I(0 if c.meth == 'sum' else 1), stp)
        c.panic_unless(le(r, I(INT[ty][1])), 'Overflow:sum')
        return r
    if ty == 'f64':
        return consume(c, recv(c), fconst(0.0), lambda a, x, cc: fop('add', a, cc.look(x)))
    raise Unsupported('sum ' + ty)
@model('Iterator.fold', 'Iterator.for_each')
def _foldm(c):
    cal = c.callable_(0)
    if c.meth == 'for_each':
        def stp(a, x, cc):
            cc.apply(cal, c.args[1], [x]); return a
        consume(c, recv(c), UNIT, stp)
        return UNIT
    return consume(c, recv(c), c.args[1], lambda a, x, cc: cc.apply(cal, c.args[2], [a, x]))
@model('Iterator.any', 'Iterator.all', 'Iterator.find', 'Iterator.position', 'Iterator.find_map')
def _any(c):
    cal = c.callable_(0)
    m = c.meth
    def stop(x, acc, cc):
        if m in ('any', 'all', 'position'):
            r = asB(cc.apply(cal, c.args[1], [x]))
            if m == 'all': r = bnot(r)
            return r, None
        if m == 'find':
            r = asB(cc.apply(cal, c.args[1], [rv(x)]))
            return r, tup(x)
        r = cc.apply(cal, c.args[1], [x])
        g0, _, g1, f1 = alts2(r if r.op == 'en' else c.ev.expand(r, c.ty))
        return g1, (tup(f1[0]) if f1 else None)
    init = I(0) if m == 'position' else UNIT
    step = (lambda a, x, cc: add(a, I(1))) if m == 'position' else None
    d, s, g = consume(c, recv(c), init, step, stop)
    if m == 'any': return G(g)
    if m == 'all': return G(bnot(g))
    if g is FALSE: return NONE
    if m == 'position': return opt(g, s)
    return opt(g, s.args[0])
@model('Iterator.max', 'Iterator.min', 'Iterator.last', 'Iterator.nth', 'Iterator.max_by_key', 'Iterator.min_by_key', 'Iterator.max_by', 'Iterator.min_by')
def _itmax(c):
    it = recv(c)
    if c.meth == 'nth':
        return nth(c)
    if c.meth == 'last':
        return consume(c, it, NONE, lambda a, x, cc: some(x))
    if c.meth in ('max', 'min'):
        ety = strip_ref(opt_inner(c.ty))
        if ety not in INT: raise Unsupported('max of ' + ety)
        lo, hi = INT[ety][:2]
        none = I(lo - 1 if c.meth == 'max' else hi + 1)          # below (above) every value of the type
        r = consume(c, it, none, lambda a, x, cc: (tmax if c.meth == 'max' else tmin)(a, cc.look(x)))
        e = eq(r, none)
        return mkalts((0, e, ()), (1, bnot(e), (rv(r) if opt_inner(c.ty).startswith('&') else r,)))
    raise Unsupported(c.meth)
def nth(c):
    ref = c.args[0]
    it = c.load(ref)
    if it.op != 'iter' or it.args[0].op != 'src' or any(s.args[0] not in ('copied',) for s in it.args[1:]): raise Unsupported('nth')
    d, pos = it.args[0].args
    k = add(pos, c.args[1])
    n = dlen(d)
    has = lt(k, n)
    # past the end the position is the end
    c.store(ref, mk('iter', mk('src', d, ite(has, add(k, I(1)), tmax(pos, n))), *it.args[1:]))
    x = delem(d, k)
    return opt(has, c.look(x) if it.args[1:] else x)
@model('Iterator.collect', 'FromIterator.from_iter')
def _collect(c):
    ty = c.ty
    it = recv(c) if c.meth == 'collect' else st_of(c, make_iter(c, c.args[0], c.argtys[0]), c.argtys[0])
    return collect_into(c, it, ty)
def grown(c, ty, r):
    c.ev.pc = c.pc
    c.ev.event('alloc_abort', seqlen(r), ty)
    return r
def collect_into(c, it, ty):
    h = head(ty)
    if h.endswith('::Vec') or h.endswith('::Box'):
        return grown(c, ty, consume(c, it, EMPTY, lambda a, x, cc: cat(a, elt(x))))
    if h.endswith('::String'):
        return consume(c, it, EMPTY, lambda a, x, cc: cat(a, (charstr(x) if sort_of(x) == 'int' else cc.look(x))))
    if 'HashSet' in h: return consume(c, it, MNEW, lambda a, x, cc: mins(a, x, UNIT))
    if 'HashMap' in h: return consume(c, it, MNEW, lambda a, x, cc: mins(a, x.args[0], x.args[1]))
    if h.endswith('::Result') or h.endswith('::Option'):
        isr = h.endswith('::Result')
        inner = targs(ty)[0]
        if not head(inner).endswith('::Vec') and inner != '()': raise Unsupported('collect ' + ty)
        ety = None
        def stop(x, acc, cc):
            e = x if x.op == 'en' else cc.ev.expand(x, f'{h}<?>')
            g0, f0, g1, f1 = alts2(e)
            if isr: return g1, (tup(f1[0]) if f1 else None)
            return g0, None
        def step(a, x, cc):
            g0, f0, g1, f1 = alts2(x)
            v = (f0 if isr else f1)[0]
            return UNIT if inner == '()' else cat(a, elt(v))
        d, s, g = consume(c, it, UNIT if inner == '()' else EMPTY, step, stop)
        if isr:
            if g is FALSE: return okv(d)
            if d is None: return errv(s.args[0])
            return result(bnot(g), d, s.args[0])
        if g is FALSE: return some(d)
        return opt(bnot(g), d) if d is not None else NONE
    if h == '()': return consume(c, it, UNIT, lambda a, x, cc: a)
    raise Unsupported('collect into ' + ty)
@model('Iterator.try_for_each', 'Iterator.try_fold')
def _tryfor(c):
    cal = c.callable_(0)
    isr = head(c.ty).endswith('::Result')
    fold = c.meth == 'try_fold'
    fv = c.args[2] if fold else c.args[1]
    # the closure is applied once per element: success continues, failure stops
    memo = {}
    def stop(x, acc, cc):
        r = cc.apply(cal, fv, [acc, x] if fold else [x])
        e = r if r.op == 'en' else cc.ev.expand(r, c.ty)
        g0, f0, g1, f1 = alts2(e)
        memo['ok'] = (f0 if isr else f1)
        return (g1, tup(f1[0]) if f1 else None) if isr else (g0, None)
    def step(a, x, cc):
        return memo['ok'][0] if fold else a
    it = recv(c)
    d, s, g = consume(c, it, c.args[1] if fold else UNIT, step, stop)
    if isr:
        if g is FALSE: return okv(d)
        if d is None: return errv(s.args[0])
        return result(bnot(g), d, s.args[0])
    if g is FALSE: return some(d)
    return opt(bnot(g), d) if d is not None else NONE
@model('Iterator.size_hint')
def _sh(c):
    it = c.val(0)
    if it.op == 'ite':
        return ite(it.args[0], hint(it.args[1]), hint(it.args[2]))
    return hint(it)
def hint(it):
    if it.op != 'iter' or it.args[0].op != 'src': raise Unsupported('size_hint')
    d, pos = it.args[0].args
    # an iterator of this crate without its own size_hint has the default one
    if d.op == 'dmat': return tup(I(0), NONE)
    n = sub(dlen(d), pos)
    if all(s.args[0] in ('map', 'copied', 'enumerate', 'inspect') for s in it.args[1:]): return tup(n, some(n))
    if all(s.args[0] in ('map', 'copied', 'enumerate', 'inspect', 'filter', 'filter_map', 'take_while', 'skip_while', 'map_while') for s in it.args[1:]): return tup(I(0), some(n))
    raise Unsupported('size_hint')
@model('iter.repeat_n', 'iter.repeat', 'iter.once', 'iter.empty', 'iter.successors', 'iter.from_fn')
def _itsrc(c):
    if c.meth == 'once': return mk('iter', mk('src', mk('dlist', c.args[0]), I(0)))
    if c.meth == 'empty': return mk('iter', mk('src', mk('dlist'), I(0)))
    if c.meth == 'repeat_n': return mk('iter', mk('src', mk('dseq', app('rept', c.args[0], c.args[1], sort='seq'), 'v', c.argtys[0]), I(0)))
    raise Unsupported(c.meth)
@model('array.from_fn', 'array.map')
def _arrfn(c): raise Unsupported('array::from_fn')
@model('FnOnce.call_once', 'FnMut.call_mut', 'Fn.call')
def _callfn(c):
    cs = [x for x in c.fn['callables'] if x]
    if not cs: raise Unsupported('indirect call')
    args = c.args[1].args if c.args[1].op == 'tup' else [c.args[1]]
    return c.apply(cs[0], c.args[0], list(args))
@model('ControlFlow.is_break')
def _isbreak(c): return G(alts2(refself(c))[2])

# ------------------------------------------------------------------ raw pointers, boxes (C layer)
@model('ptr.null_mut', 'ptr.null', '*.null_mut')
def _null(c): return app('nullptr', sort='obj')
NULL = app('nullptr', sort='obj')
def isnull(p):
    if p.op == 'app' and p.args[0] == 'nullptr': return TRUE
    if p.op == 'ite': return bite(p.args[0], isnull(p.args[1]), isnull(p.args[2]))
    if p.op in ('ref', 'rv', 'box', 'sref'): return FALSE
    if p.op == 'app' and p.args[0] in ('boxptr', 'cstrptr', 'fatptr', 'danglingptr'):
        return FALSE if p.args[0] != 'fatptr' else isnull(p.args[1])
    return rawpred('isnull', p)
tm._preds['isnull'] = isnull
@model('*.is_null')
def _isnull(c): return G(isnull(c.args[0]))
def deref_event(c, p, write):
    c.ev.pc = c.pc
    c.ev.event('deref', p, write)
def pointee(c, p, ty, write=False):
    """reference to what raw pointer p designates"""
    if p.op in ('rv', 'ref'): return p
    deref_event(c, p, write)
    if p.op == 'app' and p.args[0] == 'boxptr' and not write: return rv(p.args[1])
    cell = c.ev.cellof(c.st, p, ty)
    return mk('ref', cell) if write else rv(c.st[cell])
@model('*.as_ref', '*.as_mut')
def _pasref(c):
    p = c.args[0]; n = isnull(p)
    w = c.meth == 'as_mut'
    ty = strip_ref(opt_inner(c.ty))
    ok = bnot(n)
    if restrict(ok, c.pc) is FALSE or band(ok, c.pc) is FALSE: return NONE
    # the memory access happens only when non-null
    pc = c.pc
    c.pc = band(pc, ok)
    r = pointee(c, p, ty, w)
    c.pc = pc
    return opt(ok, r)
@model('*.cast', '*.cast_mut', '*.cast_const', 'ptr.from_ref', 'ptr.from_mut')
def _pcast(c): return c.args[0]
@model('*.read', 'ptr.read')
def _pread(c):
    p = c.args[0]
    return c.load(pointee(c, p, c.ty))
@model('*.write', 'ptr.write')
def _pwrite(c):
    p = c.args[0]
    c.ev.pc = c.pc
    c.store(p, c.args[1], c.argtys[1])
    return UNIT
@model('*.add', '*.offset', '*.wrapping_add')
def _padd(c): return app('ptroff', c.args[0], c.args[1], sort='obj')
@model('Box.new')
def _boxnew(c): return mk('box', c.args[0])
@model('Box.into_raw', 'Box.leak')
def _intoraw(c):
    v = c.args[0]
    x = v.args[0] if v.op == 'box' else v
    c.ev.pc = c.pc
    c.ev.tmpn += 1
    p = app('boxptr', x, strip_box(c.argtys[0]), sort='obj')
    c.ev.event('into_raw', strip_box(c.argtys[0]), x, p)
    return p
def strip_box(ty):
    return targs(ty)[0] if head(ty).endswith('Box') else ty
@model('Box.from_raw')
def _fromraw(c):
    p = c.args[0]
    c.ev.pc = c.pc
    c.ev.event('from_raw', strip_box(c.ty), p)
    return mk('box', app('owned', p, sort='obj'))
@model('CString.new')
def _csnew(c):
    v = c.val(0)
    return result(pred('nonul', v), app('cstring', v, sort='obj'), app('nulerr', sort='obj'))
@model('CString.into_raw')
def _csraw(c):
    c.ev.pc = c.pc
    p = app('cstrptr', c.args[0], sort='obj')
    c.ev.event('into_raw', 'CString', c.args[0], p)
    return p
@model('CString.from_raw')
def _csfrom(c):
    c.ev.pc = c.pc
    c.ev.event('from_raw', 'CString', c.args[0])
    return app('ownedcs', c.args[0], sort='obj')
@model('slice.from_raw_parts', 'slice.from_raw_parts_mut')
def _frp(c):
    p, n = c.args
    c.ev.pc = c.pc
    c.ev.event('slice_of', p, n)
    return rv(vals.seq_ite(eq(n, I(0)), EMPTY, app('rawslice', p, n, strip_ref(c.ty), sort='seq')))
_old_seqlen = vals.seqlen
@model('ptr.slice_from_raw_parts_mut', 'ptr.slice_from_raw_parts')
def _sfrp(c): return app('fatptr', c.args[0], c.args[1], sort='obj')
@model('*.len')
def _fplen(c):
    p = c.args[0]
    if p.op == 'app' and p.args[0] == 'fatptr': return p.args[2]
    if p.op == 'app' and p.args[0] == 'boxptr': return seqlen(p.args[1])
    return app('ptrlen', p, lo=0, hi=MAXLEN)
@model('Vec.as_mut_ptr', 'Vec.as_ptr', '[T].as_ptr', '[T].as_mut_ptr')
def _asptr(c):
    p = c.args[0]
    if p.op == 'app' and p.args[0] == 'boxptr': return p
    v = c.val(0)
    if v.op == 'app' and v.args[0] == 'deref' and v.args[1].op == 'app' and v.args[1].args[0] == 'boxptr': return v.args[1]
    return app('ptrof', v, sort='obj')
@model('CStr.as_ptr', 'CString.as_ptr')
def _csptr(c): return app('ptrof', c.val(0), sort='obj')
@model('CString.as_c_str')
def _csc(c): return c.args[0]
@model('Vec.capacity')
def _vcap(c):
    v = c.val(0)
    x = app('capacity', v, lo=0, hi=MAXLEN)
    if x not in tm.facts: tm.facts[x] = [sub(seqlen(v), x)]
    return x
@model('ManuallyDrop.new', 'MaybeUninit.new')
def _md(c):
    c.ev.pc = c.pc
    c.ev.event('manual', c.argtys[0], c.args[0])
    return c.args[0]
@model('panic.catch_unwind')
def _cu(c):
    raise Unsupported('catch_unwind')
@model('ptr.eq', 'ptr.addr_eq')
def _pteq(c): return G(eq(c.args[0], c.args[1]))
