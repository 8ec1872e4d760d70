"""Abstract interpreter for the Python package.

It walks the syntax tree (module `ast`); nothing of the package is imported or run.  Integers whose value
is not known are linear terms over unknowns; a branch whose condition is not decided by the linear facts
of the path splits the path (by re-evaluation with a script of decisions).  Native calls are events with
unknown results."""
import ast
from fractions import Fraction
from vals import Unsupported

U64 = 2 ** 64 - 1
LIMIT = 40000
BOOLRET = set()          # native functions that return 0 or 1

# ------------------------------------------------------------------ linear terms
class Lin:
    __slots__ = ('c', 'k')
    def __init__(self, c, k=0): self.c, self.k = {a: v for a, v in c.items() if v}, k
    def key(self): return (frozenset(self.c.items()), self.k)
    def __repr__(self):
        s = ' + '.join((f'{v}*' if v != 1 else '') + sh(a) for a, v in sorted(self.c.items(), key=repr))
        if not s: return str(self.k)
        return s + (f' {"+-"[self.k < 0]} {abs(self.k)}' if self.k else '')
def sh(a):
    if isinstance(a, tuple):
        if len(a) == 2 and isinstance(a[0], frozenset): return repr(Lin(dict(a[0]), a[1]))
        if not a or not isinstance(a[0], str): return str(a)
        if a[0] == 'arg': return a[1]
        return a[0] + '(' + ', '.join(sh(x) for x in a[1:]) + ')'
    return str(a)
def atom(*t): return Lin({t: 1})
def isint(v): return isinstance(v, Lin) or (isinstance(v, int))
def lin(v): return v if isinstance(v, Lin) else Lin({}, int(v))
def simp(l): return l if l.c else l.k
def add(a, b, s=1):
    a, b = lin(a), lin(b)
    c = dict(a.c)
    for k, v in b.c.items(): c[k] = c.get(k, 0) + s * v
    return simp(Lin(c, a.k + s * b.k))
def scale(a, n):
    a = lin(a); return simp(Lin({k: v * n for k, v in a.c.items()}, a.k * n))

def infeasible(facts):
    """no integer solution of all (lin <= 0), as far as Fourier-Motzkin over the rationals shows"""
    rows = []
    for f in facts:
        f = lin(f)
        if not f.c:
            if f.k > 0: return True
            continue
        rows.append((dict(f.c), f.k))
    vars_ = set(v for c, _ in rows for v in c)
    while vars_:
        v = min(vars_, key=lambda x: sum(1 for c, _ in rows if c.get(x, 0) > 0) * sum(1 for c, _ in rows if c.get(x, 0) < 0))
        vars_.discard(v)
        P = [r for r in rows if r[0].get(v, 0) > 0]; N = [r for r in rows if r[0].get(v, 0) < 0]
        new = [r for r in rows if r[0].get(v, 0) == 0]
        if len(P) * len(N) > 4000: return False
        for pc, pk in P:
            for nc, nk in N:
                a, b = -nc[v], pc[v]
                c = {}
                for x, y in pc.items(): c[x] = c.get(x, 0) + a * y
                for x, y in nc.items(): c[x] = c.get(x, 0) + b * y
                c = {x: y for x, y in c.items() if y}
                k = a * pk + b * nk
                if not c:
                    if k > 0: return True
                    continue
                from math import gcd
                g = 0
                for y in c.values(): g = gcd(g, abs(y))
                if g > 1: c = {x: y // g for x, y in c.items()}; k = -((-k) // g)
                new.append((c, k))
        seen = {}
        for c, k in new:
            key = frozenset(c.items())
            if key not in seen or seen[key] < k: seen[key] = k
        rows = [(dict(k), v) for k, v in seen.items()]
        vars_ = set(x for c, _ in rows for x in c)
    return False

# ------------------------------------------------------------------ values
class Sym:
    """an unknown non-integer value"""
    def __init__(self, sort, *t): self.sort, self.t = sort, t
    def key(self): return (self.sort,) + self.t
    def __repr__(self): return sh(self.t)
class Cond:
    """an unknown truth value: ('le', lin) meaning lin <= 0, or an opaque atom"""
    def __init__(self, kind, x, pos=True): self.kind, self.x, self.pos = kind, x, pos
    def neg(self): return Cond(self.kind, self.x, not self.pos)
class EqC:
    """lin == 0 as a truth value"""
    def __init__(self, x, pos=True): self.x, self.pos = x, pos
    def neg(self): return EqC(self.x, not self.pos)
class LstV:
    def __init__(self, items): self.items = list(items)
class DictV:
    def __init__(self, items): self.items = list(items)       # pairs
class MapV:
    """the list [f(i) for i in range(n)]: value v with i free"""
    def __init__(self, n, i, v): self.n, self.i, self.v = n, i, v
class ClassV:
    def __init__(self, name, bases, attrs, builtin=False): self.name, self.bases, self.attrs, self.builtin = name, bases, attrs, builtin
    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else []):
                if c not in out: out.append(c)
        return out
    def lookup(self, n):
        for c in self.mro():
            if n in c.attrs: return c.attrs[n], c
        return None, None
    def sub(self, name): return any(c.name == name and c.builtin for c in self.mro())
    def __repr__(self): return f'class {self.name}'
class FuncV:
    def __init__(self, node, env, name, owner=None, gen=False): self.node, self.env, self.name, self.owner, self.gen = node, env, name, owner, gen
class Bound:
    def __init__(self, f, self_): self.f, self.self_ = f, self_
class Static:
    def __init__(self, f, kind): self.f, self.kind = f, kind
class Builtin:
    def __init__(self, name, extra=None): self.name, self.extra = name, extra
    def __repr__(self): return self.name
class ModV:
    def __init__(self, name): self.name = name
class ObjV:
    n = 0
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
    native = None           # for structures returned by a native call: the event number
class CT:
    """simple ctypes type"""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, CT) and o.name == self.name
    def __hash__(self): return hash(self.name)
class PtrT:
    def __init__(self, t): self.t = t
    def __repr__(self): return f'POINTER({self.t})'
class ArrT:
    def __init__(self, t, n): self.t, self.n = t, n
class CObj:
    """an instance of a simple ctypes type"""
    def __init__(self, t, v): self.t, self.v = t, v
class ArrObj:
    def __init__(self, t, n, content): self.t, self.n, self.content = t, n, content
class RefV:
    def __init__(self, o): self.o = o
class PtrV:
    """a native pointer; src identifies it"""
    def __init__(self, t, src, as_=None): self.t, self.src = t, src
    def key(self): return ('ptr',) + self.src
    def __repr__(self): return sh(('ptr',) + self.src)
class View:
    def __init__(self, ptr, idx): self.ptr, self.idx = ptr, idx
class LibV:
    pass
class LibFn:
    def __init__(self, lib, name): self.lib, self.name, self.attrs = lib, name, {}
class SuperV:
    def __init__(self, obj, after): self.obj, self.after = obj, after
class Gen:
    """an iterator over known items"""
    def __init__(self, items): self.items, self.pos = list(items), 0
    keep = ()
class SymIter:
    """an iterator over a MapV"""
    def __init__(self, m): self.m, self.pos = m, 0
    keep = ()
class RangeV:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s
class NotImpl: pass

class Raised(Exception):
    def __init__(self, v, line=0): self.v, self.line = v, line
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Infeasible(Exception): pass
class Cut(Exception): pass

SIMPLE = {'c_bool': ('bool',), 'c_char': ('char',), 'c_byte': ('int', 8, True), 'c_ubyte': ('int', 8, False), 'c_int8': ('int', 8, True), 'c_uint8': ('int', 8, False),
          'c_short': ('int', 16, True), 'c_ushort': ('int', 16, False), 'c_int16': ('int', 16, True), 'c_uint16': ('int', 16, False),
          'c_int': ('int', 32, True), 'c_uint': ('int', 32, False), 'c_int32': ('int', 32, True), 'c_uint32': ('int', 32, False),
          'c_long': ('int', 64, True), 'c_ulong': ('int', 64, False), 'c_longlong': ('int', 64, True), 'c_ulonglong': ('int', 64, False),
          'c_int64': ('int', 64, True), 'c_uint64': ('int', 64, False), 'c_size_t': ('int', 64, False), 'c_ssize_t': ('int', 64, True),
          'c_float': ('float', 32), 'c_double': ('float', 64), 'c_void_p': ('ptr', ('void',)), 'c_char_p': ('ptr', ('char',)), 'c_wchar_p': ('ptr', ('wchar',))}

EXC = {'BaseException': [], 'Exception': ['BaseException'], 'StopIteration': ['Exception'], 'ArithmeticError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError'],
       'OverflowError': ['ArithmeticError'], 'LookupError': ['Exception'], 'IndexError': ['LookupError'], 'KeyError': ['LookupError'], 'TypeError': ['Exception'],
       'ValueError': ['Exception'], 'UnicodeError': ['ValueError'], 'UnicodeDecodeError': ['UnicodeError'], 'AttributeError': ['Exception'], 'ImportError': ['Exception'], 'ModuleNotFoundError': ['ImportError'],
       'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'AssertionError': ['Exception'], 'MemoryError': ['Exception'], 'BufferError': ['Exception'], 'OSError': ['Exception'],
       'Warning': ['Exception'], 'DeprecationWarning': ['Warning'], 'UserWarning': ['Warning']}

def mkclasses():
    d = {}
    d['object'] = ClassV('object', [], {}, True)
    for n, bs in EXC.items(): d[n] = ClassV(n, [d[b] for b in bs], {}, True)
    for n in ('int', 'float', 'bool', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set', 'frozenset', 'type', 'slice', 'memoryview'): d[n] = ClassV(n, [], {}, True)
    d['bool'].bases = [d['int']]
    return d
TYPES = ('int', 'float', 'bool', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set', 'frozenset', 'type', 'object', 'memoryview')
FUNS = ('len', 'range', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'abs', 'max', 'min', 'super', 'iter', 'next', 'property', 'staticmethod', 'classmethod',
        'enumerate', 'zip', 'map', 'reversed', 'any', 'all', 'sum', 'divmod', 'callable', 'repr', 'print', 'id', 'sorted', 'delattr', 'vars', 'format', 'filter', 'round', 'hash')

class Env:
    def __init__(self, parent=None, isfn=True): self.v, self.parent, self.isfn, self.glob = {}, parent, isfn, set()
    def get(self, n):
        e = self
        first = True
        while e is not None:
            if (first or e.isfn) and n in e.v: return e.v[n]
            e = e.parent; first = False
        raise KeyError(n)

class Interp:
    def __init__(self, src, script=()):
        self.tree = src
        self.script, self.taken, self.pos = list(script), [], 0
        self.facts, self.opaque = [], {}
        self.events = []            # native calls and reads
        self.steps = 0
        self.cls = mkclasses()
        self.fresh = 0
        self.lib = None
        self.objs = []              # every object created
        self.fns = {}               # functions entered
        self.depth = 0
        self.handled = []
        self.conc = None            # concrete valuation of unknowns (witness search)
        self.modenv = Env(None)
        self.modenv.v['__file__'] = '/pkg/graphrox/__init__.py'
        self.modenv.v['__name__'] = 'graphrox'

    # ------------------------------------------------------------ decisions
    def assume(self, l):
        self.facts.append(l)
    def implied(self, l):
        """facts imply l <= 0"""
        l = lin(l)
        if not l.c: return l.k <= 0
        return infeasible(self.facts + [add(1, l, -1)])
    def le0(self, l):
        l = lin(l)
        if not l.c: return l.k <= 0
        if self.implied(l): return True
        if self.implied(add(1, l, -1)): return False
        return self.choose(('le', l.key()), lambda: self.assume(l), lambda: self.assume(add(1, l, -1)))
    def eq0(self, l):
        if not self.le0(l): return False
        return self.le0(scale(l, -1))
    def choose(self, key, yes, no):
        if self.pos < len(self.script): b = self.script[self.pos]
        else: b = True
        self.pos += 1
        self.taken.append(b)
        (yes if b else no)()
        return b
    def guess(self, key):
        """an opaque condition: either way"""
        if key in self.opaque: return self.opaque[key]
        b = self.choose(key, lambda: None, lambda: None)
        self.opaque[key] = b
        return b
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)): return bool(v)
        if isinstance(v, Lin): return not self.eq0(v)
        if isinstance(v, EqC): return self.eq0(v.x) == v.pos
        if isinstance(v, Cond):
            b = self.le0(v.x) if v.kind == 'le' else self.guess(v.x)
            return b == v.pos
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, (LstV, DictV)): return bool(v.items)
        if isinstance(v, MapV): return not self.eq0(lin(v.n))
        if isinstance(v, Sym):
            if v.sort in ('seq', 'bytes', 'list'): return not self.eq0(lin(self.length(v)))
            return self.guess(('true',) + v.key())
        if isinstance(v, PtrV): return not self.guess(('null',) + v.src)
        if isinstance(v, ObjV):
            for n in ('__bool__', '__len__'):
                f, _ = v.cls.lookup(n)
                if f is not None: return self.truth(self.call(self.attr(v, n), [], {}))
            return True
        if isinstance(v, CObj): return self.truth(v.v)
        return True

    # ------------------------------------------------------------ raising
    def exc(self, name, msg='', line=0):
        o = ObjV(self.cls[name]); o.attrs['args'] = (msg,)
        return Raised(o, line)
    def type_(self, v):
        c = self.cls
        if isinstance(v, (bool, Cond, EqC)): return c['bool']
        if isinstance(v, (int, Lin)): return c['int']
        if isinstance(v, float): return c['float']
        if isinstance(v, str): return c['str']
        if isinstance(v, bytes): return c['bytes']
        if isinstance(v, tuple): return c['tuple']
        if isinstance(v, (LstV, MapV)): return c['list']
        if isinstance(v, DictV): return c['dict']
        if isinstance(v, Sym) and v.sort in c: return c[v.sort]
        if isinstance(v, Sym) and v.sort in ('seq', 'list'): return c['list']
        if isinstance(v, ObjV): return v.cls
        if isinstance(v, View): return v.ptr.t
        if isinstance(v, (ClassV,)): return c['type']
        if isinstance(v, CObj): return v.t
        if isinstance(v, PtrV): return CT('c_void_p') if v.t is None else PtrT(v.t)
        if v is None: return ClassV('NoneType', [], {}, True)
        raise Unsupported('type of ' + type(v).__name__)

    # ------------------------------------------------------------ module
    def module(self):
        for s in self.tree.body: self.stmt(s, self.modenv)
        return self.modenv

    def name(self, n, env):
        try: return env.get(n)
        except KeyError: pass
        if n in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[n]
        if n in self.cls: return self.cls[n]
        if n in FUNS: return Builtin(n)
        if n == 'NotImplemented': return NotImpl()
        if n in ('__doc__',): return None
        raise self.exc('AttributeError', f'name {n} is not defined')

    # ------------------------------------------------------------ statements
    def block(self, ss, env):
        for s in ss: self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > LIMIT: raise Unsupported('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement ' + type(s).__name__)
        try: return m(s, env)
        except Raised as e:
            if not e.line: e.line = getattr(s, 'lineno', 0)
            raise

    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Global(self, s, env):
        env.glob.update(s.names)
    def s_Nonlocal(self, s, env):
        for n in s.names: env.v['\0nl:' + n] = True
    def s_Import(self, s, env):
        for a in s.names: env.v[(a.asname or a.name.split('.')[0])] = ModV(a.name if a.asname else a.name.split('.')[0])
    def s_ImportFrom(self, s, env):
        for a in s.names:
            if a.name == '*': raise Unsupported('import *')
            env.v[a.asname or a.name] = self.attr(ModV(s.module or ''), a.name)
    def s_FunctionDef(self, s, env):
        f = FuncV(s, env, s.name, gen=is_gen(s))
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, env) for d in s.args.kw_defaults]
        v = f
        for d in reversed(s.decorator_list): v = self.call(self.ev(d, env), [v], {})
        self.store(s.name, v, env)
    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if s.keywords: raise Unsupported('class keywords')
        ce = Env(env, False)
        c = ClassV(s.name, bases, ce.v)
        c.isfnenv = ce
        self.block(s.body, ce)
        for k, v in ce.v.items():
            f = v.f if isinstance(v, Static) else v
            if isinstance(f, FuncV) and f.owner is None: f.owner = c
        if any(isinstance(b, ClassV) and b.sub('Enum') for b in bases):
            for k, v in list(ce.v.items()):
                if k.startswith('_') or isinstance(v, (FuncV, Static)): continue
                o = ObjV(c); o.attrs.update(name=k, value=v); ce.v[k] = o
        v = c
        for d in reversed(s.decorator_list): v = self.call(self.ev(d, env), [v], {})
        self.store(s.name, v, env)
    def s_Return(self, s, env): raise Ret(None if s.value is None else self.ev(s.value, env))
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name): cur = self.name(t.id, env)
        elif isinstance(t, ast.Attribute): o = self.ev(t.value, env); cur = self.attr(o, t.attr)
        elif isinstance(t, ast.Subscript): o = self.ev(t.value, env); ix = self.ev(t.slice, env); cur = self.item(o, ix)
        v = self.binop(type(s.op).__name__, cur, self.ev(s.value, env))
        if isinstance(t, ast.Name): self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute): self.setattr(o, t.attr, v)
        else: self.setitem(o, ix, v)
    def store(self, n, v, env):
        if n in env.glob: self.modenv.v[n] = v
        elif '\0nl:' + n in env.v:
            e = env.parent
            while e is not None and not (e.isfn and n in e.v): e = e.parent
            if e is None: raise Unsupported('nonlocal')
            e.v[n] = v
        else: env.v[n] = v
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported('starred target')
            vs = self.items(v)
            if len(vs) != len(t.elts): raise self.exc('ValueError', 'unpacking')
            for a, b in zip(t.elts, vs): self.assign(a, b, env)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else: raise Unsupported('target')
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.v.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if not isinstance(o, ObjV) or t.attr not in o.attrs: raise self.exc('AttributeError', t.attr)
                del o.attrs[t.attr]
            else: raise Unsupported('del')
    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise self.exc('AssertionError')
    def s_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env); return
            n += 1
            if n > 40: raise Cut()
            try: self.block(s.body, env)
            except Brk: return
            except Cont: pass
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        m = self.symbolic(it)
        if m is not None and isinstance(m, MapV) and not isinstance(m.n, int) and self.genloop(s, m, env): return
        for v in self.walk(it):
            self.assign(s.target, v, env)
            try: self.block(s.body, env)
            except Brk: return
            except Cont: continue
        self.block(s.orelse, env)
    def genloop(self, s, m, env):
        """for x in <n items>: yield f(x) / lst.append(f(x)), once for a generic item"""
        if s.orelse or len(s.body) != 1 or not isinstance(s.body[0], ast.Expr): return False
        x = s.body[0].value
        if isinstance(x, ast.Yield) and x.value is not None:
            ys = self.yields()
            if ys.items: return False
            self.assign(s.target, m.v, env)
            v = self.generic(m, lambda: self.ev(x.value, env))
            ys.sym = MapV(m.n, m.i, v)
            return True
        return False
    def generic(self, m, f):
        """evaluate f for an arbitrary position m.i of a sequence of m.n items"""
        nf, ne = len(self.facts), len(self.events)
        g = [scale(m.i, -1), add(add(m.i, 1), m.n, -1)]
        self.facts += g
        v = f()
        del self.facts[nf:nf + 2]
        # what was read inside happens only for positions of the sequence
        for j in range(ne, len(self.events)):
            e = self.events[j]
            if e[0] == 'read': self.events[j] = e[:4] + (tuple(e[4] if len(e) > 4 else ()) + tuple(g),)
            else: raise Unsupported('native call for every item')
        return v
    def s_Break(self, s, env): raise Brk()
    def s_Continue(self, s, env): raise Cont()
    def s_Raise(self, s, env):
        if s.exc is None:
            if self.handled: raise self.handled[-1]
            raise Unsupported('bare raise')
        v = self.ev(s.exc, env)
        if s.cause is not None: self.ev(s.cause, env)
        if isinstance(v, ClassV): v = self.call(v, [], {})
        raise Raised(v, s.lineno)
    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e.v, self.ev(h.type, env)):
                        if h.name: env.v[h.name] = e.v
                        self.handled.append(e)
                        try: self.block(h.body, env)
                        finally: self.handled.pop()
                        break
                else: raise
            else: self.block(s.orelse, env)
        except (Raised, Ret, Brk, Cont):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)
    def matches(self, v, t):
        if isinstance(t, tuple): return any(self.matches(v, x) for x in t)
        if not isinstance(t, ClassV): raise Unsupported('except type')
        return t in v.cls.mro()
    def s_With(self, s, env):
        if len(s.items) != 1: 
            inner = ast.With(items=s.items[1:], body=s.body); ast.copy_location(inner, s)
            body = [inner]
        else: body = s.body
        i = s.items[0]
        cm = self.ev(i.context_expr, env)
        if not isinstance(cm, ObjV): raise Unsupported('context manager')
        v = self.call(self.attr(cm, '__enter__'), [], {})
        if i.optional_vars is not None: self.assign(i.optional_vars, v, env)
        try: self.block(body, env)
        except Raised as e:
            if not self.truth(self.call(self.attr(cm, '__exit__'), [e.v.cls, e.v, None], {})): raise
            return
        except (Ret, Brk, Cont):
            self.call(self.attr(cm, '__exit__'), [None, None, None], {}); raise
        self.call(self.attr(cm, '__exit__'), [None, None, None], {})

    # ------------------------------------------------------------ iteration
    def symbolic(self, v):
        """a MapV for a sequence of unknown length"""
        if isinstance(v, MapV): return v
        if isinstance(v, RangeV) and v.s == 1 and not (isinstance(v.a, int) and isinstance(v.b, int)):
            self.fresh += 1
            i = atom('index', self.fresh)
            n = add(v.b, v.a, -1)
            return MapV(n, i, add(i, v.a))
        if isinstance(v, Sym) and v.sort == 'seq':
            self.fresh += 1
            i = atom('index', self.fresh)
            return MapV(self.length(v), i, Lin({('elem', v.t, i.key()): 1}))
        if isinstance(v, Gen) and isinstance(v.items, MapV): return v.items
        return None
    def walk(self, v):
        """python generator over the items, splitting the path on the length"""
        m = self.symbolic(v)
        if m is not None:
            k = 0
            while not self.le0(add(m.n, k, -1)):
                yield self.subst(m.v, m.i, k)
                k += 1
                if k > 4: raise Cut()
            return
        if isinstance(v, ObjV):
            it = self.call(Builtin('iter'), [v], {})
            k = 0
            while True:
                try: x = self.call(Builtin('next'), [it], {})
                except Raised as e:
                    if e.v.cls.sub('StopIteration'): return
                    raise
                yield x
                k += 1
                if k > 6: raise Cut()
        yield from self.items(v)
    def items(self, v):
        if isinstance(v, tuple): return list(v)
        if isinstance(v, LstV): return list(v.items)
        if isinstance(v, DictV): return [k for k, _ in v.items]
        if isinstance(v, str): return list(v)
        if isinstance(v, bytes): return list(v)
        if isinstance(v, RangeV) and isinstance(v.a, int) and isinstance(v.b, int): return list(range(v.a, v.b, v.s))
        if isinstance(v, Gen): return list(v.items)[v.pos:]
        if isinstance(v, ClassV) and v.sub('Enum'): return [x for x in v.attrs.values() if isinstance(x, ObjV)]
        if isinstance(v, (MapV, RangeV, Sym, ObjV)):
            return list(self.walk(v))
        raise self.exc('TypeError', 'not iterable')
    def subst(self, v, i, k):
        (a,) = i.c
        def f(x):
            if isinstance(x, Lin):
                r = Lin({}, x.k)
                for t, c in x.c.items():
                    if t == a: y = lin(k)
                    else:
                        t2 = g(t); y = Lin({t2: 1})
                    r = lin(add(r, scale(y, c)))
                return simp(r)
            if isinstance(x, tuple): return tuple(f(y) for y in x)
            if isinstance(x, Sym): return Sym(x.sort, *g(x.t))
            return x
        def g(t):
            if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], frozenset):
                return lin(f(Lin(dict(t[0]), t[1]))).key()
            if isinstance(t, tuple): return tuple(g(y) for y in t)
            return t
        return f(v)
    def yields(self): return self.ystack[-1]
    ystack = None
    onset = None            # called after every attribute assignment

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > LIMIT: raise Unsupported('too many steps')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(e, env)
    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env): return self.name(e.id, env)
    def e_Attribute(self, e, env): return self.attr(self.ev(e.value, env), e.attr)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return LstV(self.elts(e.elts, env))
    def e_Set(self, e, env): return LstV(self.elts(e.elts, env))
    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out += self.items(self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out
    def e_Dict(self, e, env): return DictV([(self.ev(k, env), self.ev(v, env)) for k, v in zip(e.keys, e.values)])
    def e_IfExp(self, e, env): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.assign(e.target, v, env); return v
    def e_Lambda(self, e, env):
        f = FuncV(e, env, '<lambda>'); f.defaults = [self.ev(d, env) for d in e.args.defaults]; f.kwdefaults = []
        return f
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1: return v
            if self.truth(v) != isand: return v
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, (Cond, EqC)): return v.neg()
            if isinstance(v, Lin): return EqC(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isint(v): return scale(v, -1)
            if isinstance(v, float): return -v
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and isint(v): return add(scale(v, -1), -1)
        raise Unsupported('unary operator')
    def e_BinOp(self, e, env): return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, env)
            v = self.compare(type(op).__name__, l, r)
            if i == len(e.ops) - 1: return v
            if not self.truth(v): return False
            l = r
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fe = env
            while fe is not None and '\0self' not in fe.v: fe = fe.parent
            if fe is None: raise Unsupported('super')
            return SuperV(fe.v['\0self'], fe.v['\0owner'])
        f = self.ev(e.func, env)
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                m = self.symbolic(v)
                if m is not None and not isinstance(m.n, int): args.append(Star(v if isinstance(v, Sym) else m))
                else: args += self.items(v)
            else: args.append(self.ev(x, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, DictV): raise Unsupported('** of unknown')
                for a, b in v.items: kw[a] = b
            else: kw[k.arg] = v
        return self.call(f, args, kw, getattr(e, 'lineno', 0))
    def e_Subscript(self, e, env): return self.item(self.ev(e.value, env), self.ev(e.slice, env))
    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return ('\0slice', g(e.lower), g(e.upper), g(e.step))
    def e_JoinedStr(self, e, env):
        out = ''
        for p in e.values:
            v = p.value if isinstance(p, ast.Constant) else self.ev(p.value, env)
            if not isinstance(v, (str, int)) or isinstance(v, bool):
                return Sym('str', 'text')
            out += str(v)
        return out
    def comp(self, e, env, fin):
        ce = Env(env)
        if '\0self' in env.v: ce.v.update({k: env.v[k] for k in ('\0self', '\0owner')})
        # one generator over an unknown sequence: a generic item
        g0 = e.generators[0]
        it = self.ev(g0.iter, env)
        m = self.symbolic(it)
        if m is not None and not isinstance(m.n, int) and len(e.generators) == 1 and not g0.ifs and not isinstance(e, (ast.DictComp,)):
            self.assign(g0.target, m.v, ce)
            v = self.generic(m, lambda: self.ev(e.elt, ce))
            if isinstance(it, Sym) and isinstance(v, Lin) and v.key() == m.v.key(): return it
            return MapV(m.n, m.i, v)
        out = []
        def rec(i, env2):
            if i == len(e.generators): out.append(fin(env2)); return
            g = e.generators[i]
            for v in self.walk(it if i == 0 else self.ev(g.iter, env2)):
                self.assign(g.target, v, env2)
                if all(self.truth(self.ev(c, env2)) for c in g.ifs): rec(i + 1, env2)
        rec(0, ce)
        return LstV(out)
    def e_ListComp(self, e, env): return self.comp(e, env, lambda c: self.ev(e.elt, c))
    def e_SetComp(self, e, env): return self.comp(e, env, lambda c: self.ev(e.elt, c))
    def e_GeneratorExp(self, e, env):
        v = self.comp(e, env, lambda c: self.ev(e.elt, c))
        g = Gen([]); 
        if isinstance(v, LstV): g.items = v.items
        elif isinstance(v, MapV): g = SymIter(v)
        else: return v
        fe = env
        while fe is not None and '\0self' not in fe.v: fe = fe.parent
        g.keep = (fe.v['\0self'],) if fe is not None else ()
        return g
    def e_DictComp(self, e, env):
        v = self.comp(e, env, lambda c: (self.ev(e.key, c), self.ev(e.value, c)))
        return DictV(v.items)
    def e_Yield(self, e, env):
        v = None if e.value is None else self.ev(e.value, env)
        ys = self.yields()
        if ys.sym is not None: raise Unsupported('yield after a generic loop')
        ys.items.append(v)
        return None
    def e_YieldFrom(self, e, env):
        ys = self.yields()
        v = self.ev(e.value, env)
        if isinstance(v, SymIter) and not ys.items: ys.sym = v.m; return None
        if isinstance(v, MapV) and not ys.items: ys.sym = v; return None
        for x in self.walk(v): ys.items.append(x)
    def e_Starred(self, e, env): raise Unsupported('starred')

    def binop(self, op, a, b):
        if isinstance(a, (Cond, EqC)): a = int(self.truth(a))
        if isinstance(b, (Cond, EqC)): b = int(self.truth(b))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if op == 'Mult' and isinstance(a, (CT, ClassV, PtrT)) and isint(b): return ArrT(a, b)
        if op == 'Mult' and isinstance(b, (CT, ClassV, PtrT)) and isint(a): return ArrT(b, a)
        if isint(a) and isint(b):
            if op == 'Add': return add(a, b)
            if op == 'Sub': return add(a, b, -1)
            if op == 'Mult':
                if isinstance(a, int): return scale(b, a)
                if isinstance(b, int): return scale(a, b)
                raise Unsupported('product of unknowns')
            if op in ('Mod', 'FloorDiv'):
                if self.eq0(lin(b)): raise self.exc('ZeroDivisionError')
                if isinstance(a, int) and isinstance(b, int): return a % b if op == 'Mod' else a // b
                if not self.le0(add(1, b, -1)): raise Unsupported('negative divisor')
                if not self.le0(add(1, a)) and self.le0(add(add(a, 1), b, -1)): return a if op == 'Mod' else 0
                if isinstance(b, int) or op == 'Mod':
                    r = atom('mod', lin(a).key(), lin(b).key())
                    self.assume(scale(r, -1)); self.assume(add(add(r, 1), b, -1))
                    if isinstance(b, int):
                        q = atom('quot', lin(a).key(), b)
                        x = add(add(scale(q, b), r), a, -1)
                        self.assume(x); self.assume(scale(x, -1))
                        return r if op == 'Mod' else q
                    return r
                raise Unsupported('quotient of unknowns')
            if isinstance(a, int) and isinstance(b, int):
                import operator as o
                t = {'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor, 'LShift': o.lshift, 'RShift': o.rshift, 'Pow': o.pow, 'Div': o.truediv}
                if op in t and (op not in ('LShift', 'Pow') or 0 <= b < 200) and not (op == 'Div' and b == 0): return t[op](a, b)
            if op == 'LShift' and isinstance(b, int) and 0 <= b < 64: return scale(a, 1 << b)
            if op == 'BitAnd' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: 
                if self.le0(scale(a, -1)) and self.le0(add(a, b, -1)): return a
                return self.binop('Mod', a, b + 1)
            raise Unsupported('integer operator ' + op)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add': return a + b
        if op == 'Mod' and isinstance(a, str): return Sym('str', 'text')
        if op == 'Add' and (isinstance(a, Sym) and a.sort == 'str' or isinstance(b, Sym) and b.sort == 'str'):
            return Sym('str', 'add', getattr(a, 't', a), getattr(b, 't', b))
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op == 'Add' and isinstance(a, LstV) and isinstance(b, LstV): return LstV(a.items + b.items)
        if op == 'Div' and isinstance(b, (ModPath, str)) and isinstance(a, ModPath): return ModPath()
        if isinstance(a, (ModPath,)): return ModPath()
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
            import operator as o
            t = {'Add': o.add, 'Sub': o.sub, 'Mult': o.mul, 'Div': o.truediv, 'Pow': o.pow}
            if op in t and not (op == 'Div' and b == 0): return t[op](a, b)
        if isinstance(a, Sym) and a.sort == 'float' or isinstance(b, Sym) and b.sort == 'float':
            return Sym('float', op, kk(a), kk(b))
        raise Unsupported(f'operator {op} on {type(a).__name__}, {type(b).__name__}')

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if op == 'Is' else (not r if isinstance(r, bool) else r.neg())
        if op in ('In', 'NotIn'):
            if isinstance(b, RangeV) and b.s == 1:
                r = self.truth(self.compare('GtE', a, b.a)) and self.truth(self.compare('Lt', a, b.b))
            elif isinstance(b, str) and isinstance(a, str): r = a in b
            else: r = any(self.truth(self.compare('Eq', a, x)) for x in self.items(b))
            return r if op == 'In' else not r
        if isinstance(a, (Cond, EqC)) and op in ('Eq', 'NotEq') and isinstance(b, bool):
            return a if b == (op == 'Eq') else a.neg()
        if isinstance(a, (Cond, EqC)): a = int(self.truth(a))
        if isinstance(b, (Cond, EqC)): b = int(self.truth(b))
        if isint(a) and isint(b):
            d = add(a, b, -1)
            if isinstance(d, int):
                return {'Eq': d == 0, 'NotEq': d != 0, 'Lt': d < 0, 'LtE': d <= 0, 'Gt': d > 0, 'GtE': d >= 0}[op]
            return {'Eq': EqC(d), 'NotEq': EqC(d, False), 'LtE': Cond('le', d), 'Gt': Cond('le', d, False),
                    'Lt': Cond('le', add(d, 1)), 'GtE': Cond('le', add(d, 1), False)}[op]
        if isint(a) and isinstance(b, float) and b == int(b): return self.compare(op, a, int(b))
        if isinstance(a, float) and isint(b) and a == int(a): return self.compare(op, int(a), b)
        if isinstance(a, (str, bytes, float, int, type(None))) and isinstance(b, (str, bytes, float, int, type(None))):
            if op == 'Eq': return a == b
            if op == 'NotEq': return a != b
            try: return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
            except TypeError: raise self.exc('TypeError', 'comparison')
        if op in ('Eq', 'NotEq'):
            if a is None or b is None or isinstance(a, ClassV) or isinstance(b, ClassV):
                r = self.same(a, b)
                return r if op == 'Eq' else (not r if isinstance(r, bool) else r.neg())
            if isinstance(a, ObjV) and isinstance(b, ObjV):
                f, _ = a.cls.lookup('__eq__')
                if f is None:
                    if a.cls.sub('IntEnum') or b.cls.sub('IntEnum'): return self.compare(op, a.attrs.get('value', a), b.attrs.get('value', b))
                    return (a is b) == (op == 'Eq')
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ObjV) and x.cls.sub('IntEnum') and isint(y):
                    return self.compare(op, x.attrs['value'], y)
                if isinstance(x, ObjV) and x.cls.sub('Enum') and not isinstance(y, ObjV): return op == 'NotEq'
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = len(a) == len(b) and all(self.truth(self.compare('Eq', x, y)) for x, y in zip(a, b))
                return r == (op == 'Eq')
            if isinstance(a, (CT, PtrT)) or isinstance(b, (CT, PtrT)): return (a == b) == (op == 'Eq')
        k = (op, kk(a), kk(b))
        return Cond('op', k)
    def same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                if y is None: return True
                if isinstance(y, PtrV): return Cond('op', ('null',) + y.src)
                if isinstance(y, Sym) and y.sort == 'any': return Cond('op', ('none',) + y.t)
                return False
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)): return type(a) == type(b) and a == b
        if isinstance(a, (CT,)) and isinstance(b, (CT,)): return a == b
        return a is b

    # ------------------------------------------------------------ attributes and items
    def length(self, v):
        if isinstance(v, (tuple, str, bytes)): return len(v)
        if isinstance(v, (LstV, DictV)): return len(v.items)
        if isinstance(v, MapV):
            if self.le0(lin(v.n)): return 0
            return v.n
        if isinstance(v, RangeV):
            if v.s != 1: raise Unsupported('range step')
            d = add(v.b, v.a, -1)
            return 0 if self.le0(lin(d)) else d
        if isinstance(v, Sym):
            if v.sort == 'bytes' and v.t[0] == 'bytesof': return simp(Lin(dict(v.t[2][0]), v.t[2][1]))
            if v.sort == 'list' and v.t[0] == 'elts': return simp(Lin(dict(v.t[2][0]), v.t[2][1]))
            if v.sort in ('seq', 'bytes', 'list', 'str'):
                n = atom('len', v.t)
                if not any(lin(f).key() == scale(n, -1).key() for f in self.facts if isinstance(f, Lin)):
                    self.assume(scale(n, -1)); self.assume(add(n, 2 ** 61, -1))
                return n
        if isinstance(v, ArrObj): return v.n
        if isinstance(v, ObjV):
            f, _ = v.cls.lookup('__len__')
            if f is not None: return self.call(self.attr(v, '__len__'), [], {})
        raise self.exc('TypeError', 'no len()')

    def item(self, o, ix):
        if isinstance(ix, tuple) and ix and ix[0] == '\0slice': return self.slice(o, *ix[1:])
        if isinstance(ix, (Cond, EqC)): ix = int(self.truth(ix))
        if isinstance(o, PtrV):
            if o.t is None: raise self.exc('TypeError', 'not subscriptable')
            if not isint(ix): raise self.exc('TypeError', 'index')
            if isinstance(o.t, ClassV): return View(o, ix)
            return self.scalar(o, ix)
        if isinstance(o, (tuple, LstV, str, bytes)) and isinstance(ix, int):
            xs = o.items if isinstance(o, LstV) else o
            try: return xs[ix]
            except IndexError: raise self.exc('IndexError')
        if isinstance(o, (MapV,)) and isint(ix):
            n = self.length(o)
            if self.truth(self.compare('Lt', ix, 0)): ix = add(ix, n)
            if self.truth(self.compare('Lt', ix, 0)) or self.truth(self.compare('GtE', ix, n)): raise self.exc('IndexError')
            return self.subst(o.v, o.i, ix)
        if isinstance(o, DictV):
            for k, v in o.items:
                if self.truth(self.compare('Eq', k, ix)): return v
            raise self.exc('KeyError')
        if isinstance(o, ObjV):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None: return self.call(self.attr(o, '__getitem__'), [ix], {})
        if isinstance(o, ClassV) and o.sub('Enum'):
            v, _ = o.lookup(ix) if isinstance(ix, str) else (None, None)
            if v is None: raise self.exc('KeyError')
            return v
        if isinstance(o, ArrObj) and isint(ix): return Sym('any', 'arrayitem', id(o), lin(ix).key())
        raise Unsupported('subscript of ' + type(o).__name__)
    def slice(self, o, a, b, s):
        if isinstance(o, PtrV):
            if a not in (None, 0) or s not in (None, 1) or not isint(b): raise Unsupported('slice of a pointer')
            self.events.append(('read', o.key(), 0, lin(b).key()))
            if isinstance(o.t, CT) and o.t.name == 'c_char': return Sym('bytes', 'bytesof', o.key(), lin(b).key())
            return Sym('list', 'elts', o.key(), lin(b).key())
        xs = o.items if isinstance(o, LstV) else o
        if isinstance(xs, (tuple, list, str, bytes)) and all(x is None or isinstance(x, int) for x in (a, b, s)):
            r = xs[a:b:s]
            return LstV(r) if isinstance(o, LstV) else r
        if isinstance(o, Sym) and o.sort in ('bytes', 'list', 'seq'):
            n = self.length(o)
            if a in (None, 0) and s in (None, 1) and (b is None or (isint(b) and self.implied(add(n, b, -1)))): return o
            return Sym(o.sort, 'slice', o.t, kk(a), kk(b), kk(s))
        raise Unsupported('slice')
    def scalar(self, p, ix):
        self.events.append(('read', p.key(), lin(ix).key(), None))
        k = SIMPLE[p.t.name]
        return Lin({('elt', p.key(), lin(ix).key(), ''): 1}) if k[0] == 'int' else Sym('float', 'elt', p.key(), lin(ix).key(), '')
    def setitem(self, o, ix, v):
        if isinstance(o, DictV):
            for i, (k, _) in enumerate(o.items):
                if self.truth(self.compare('Eq', k, ix)): o.items[i] = (k, v); return
            o.items.append((ix, v)); return
        if isinstance(o, LstV) and isinstance(ix, int): o.items[ix] = v; return
        if isinstance(o, ObjV): self.call(self.attr(o, '__setitem__'), [ix, v], {}); return
        raise Unsupported('item assignment')

    def setattr(self, o, n, v):
        if isinstance(o, ObjV):
            f, _ = o.cls.lookup('__setattr__')
            if f is not None: raise Unsupported('__setattr__')
            p, _ = o.cls.lookup(n)
            if isinstance(p, Static) and p.kind == 'property': raise self.exc('AttributeError', n)
            o.attrs[n] = v
            if self.onset: self.onset()
        elif isinstance(o, LibFn): o.attrs[n] = v
        elif isinstance(o, ClassV): o.attrs[n] = v
        elif isinstance(o, CObj) and n == 'value': o.v = v
        elif isinstance(o, FuncV): pass
        elif isinstance(o, View): raise Unsupported('store through a native pointer')
        else: raise Unsupported('attribute assignment on ' + type(o).__name__)

    def field(self, v, n):
        """field n of the structure a View shows"""
        c = v.ptr.t
        for f in self.fields(c):
            if f[0] == n:
                self.events.append(('read', v.ptr.key(), lin(v.idx).key(), n))
                t = f[1]
                if isinstance(t, CT):
                    k = SIMPLE[t.name]
                    if k[0] == 'int': return Lin({('elt', v.ptr.key(), lin(v.idx).key(), n): 1})
                    if k[0] == 'float': return Sym('float', 'elt', v.ptr.key(), lin(v.idx).key(), n)
                raise Unsupported('field type')
        raise self.exc('AttributeError', n)
    def fields(self, c):
        out = []
        for k in reversed(c.mro()):
            if '_fields_' in k.attrs:
                for f in self.items(k.attrs['_fields_']): out.append(tuple(self.items(f)))
        return out

    def bindm(self, f, o, c):
        if isinstance(f, FuncV): return Bound(f, o)
        if isinstance(f, Static):
            if f.kind == 'static': return f.f
            if f.kind == 'class': return Bound(f.f, o.cls if isinstance(o, ObjV) else o)
            if f.kind == 'property':
                return self.call(f.f, [o], {})
        return f

    def attr(self, o, n):
        if isinstance(o, ObjV):
            p, c = o.cls.lookup(n)
            if isinstance(p, Static) and p.kind == 'property': return self.call(p.f, [o], {})
            if n in o.attrs: return o.attrs[n]
            if n == '__class__': return o.cls
            if n == '__dict__': return DictV(o.attrs.items())
            if p is not None: return self.bindm(p, o, c)
            if o.cls.sub('Structure'):
                for f in self.fields(o.cls):
                    if f[0] == n:
                        if o.native is not None: return PtrV(None, ('field', o.native, n))
                        return PtrV(None, ('localfield', id(o), n))
            f, _ = o.cls.lookup('__getattr__')
            if f is not None: return self.call(Bound(f, o), [n], {})
            raise self.exc('AttributeError', n)
        if isinstance(o, SuperV):
            m = (o.obj.cls if isinstance(o.obj, ObjV) else o.obj).mro()
            for c in m[m.index(o.after) + 1:]:
                if n in c.attrs: return self.bindm(c.attrs[n], o.obj, c)
            if n in ('__init__', '__del__', '__init_subclass__'): return Builtin('noop')
            if n == '__new__': return Builtin('objnew')
            raise self.exc('AttributeError', n)
        if isinstance(o, ClassV):
            if n == '__name__': return o.name
            if n == '__members__' and o.sub('Enum'): return DictV([(k, v) for k, v in o.attrs.items() if isinstance(v, ObjV)])
            v, c = o.lookup(n)
            if isinstance(v, Static) and v.kind == 'class': return Bound(v.f, o)
            if isinstance(v, Static) and v.kind == 'static': return v.f
            if v is not None: return v
            if n == '__new__': return Builtin('objnew')
            if n == '__init__': return Builtin('noop')
            if o.sub('Structure') and n == 'from_buffer_copy': raise Unsupported(n)
            if o.builtin: return Builtin(f'{o.name}.{n}')
            raise self.exc('AttributeError', n)
        if isinstance(o, ModV): return self.modattr(o.name, n)
        if isinstance(o, LibV):
            if n.startswith('__'): raise self.exc('AttributeError', n)
            return self.libfn(n)
        if isinstance(o, LibFn):
            if n == '__name__': return o.name
            if n in o.attrs: return o.attrs[n]
            if n in ('argtypes', 'errcheck'): return None
            if n == 'restype': return CT('c_int')
            raise self.exc('AttributeError', n)
        if isinstance(o, CObj):
            if n == 'value': return o.v
            raise self.exc('AttributeError', n)
        if isinstance(o, CastV):
            if n == 'value':
                self.events.append(('read', o.p.key(), 'cstr', None))
                return Sym('bytes', 'cstr', o.p.key())
            raise self.exc('AttributeError', n)
        if isinstance(o, PtrV):
            if o.t is None: raise self.exc('AttributeError', n)
            if n == 'contents':
                if isinstance(o.t, ClassV): return View(o, 0)
                raise Unsupported('contents')
            if n == '_type_': return o.t
            raise self.exc('AttributeError', n)
        if isinstance(o, View): return self.field(o, n)
        if isinstance(o, (FuncV, Bound)):
            f = o.f if isinstance(o, Bound) else o
            if n == '__name__': return f.name
            if n == '__self__' and isinstance(o, Bound): return o.self_
            if n in ('__doc__', '__qualname__', '__module__'): return f.name
            raise self.exc('AttributeError', n)
        if isinstance(o, ArrT):
            return Builtin('arr.' + n, o)
        if isinstance(o, (CT, PtrT)):
            if n == '__name__': return repr(o)
            if n == '_type_' and isinstance(o, PtrT): return o.t
            if n in ('from_buffer', 'from_buffer_copy', 'from_param', 'in_dll'): return Builtin('ct.' + n, o)
            raise self.exc('AttributeError', n)
        if isinstance(o, ModPath): return ModPath()
        if isinstance(o, Builtin) and o.name in ('platform.uname()',): return 'x86_64' if n == 'machine' else 'Linux'
        if isinstance(o, Static) and o.kind == 'property' and n in ('setter', 'getter', 'deleter'): return Builtin('prop.' + n, o)
        if isinstance(o, (str, bytes, LstV, DictV, tuple, Sym, Lin, int, float, MapV, RangeV, ArrObj, Gen, SymIter)) or o is None:
            if n in METHODS.get(kindof(o), ()): return Builtin('m.' + n, o)
            raise self.exc('AttributeError', n)
        raise Unsupported(f'attribute {n} of {type(o).__name__}')

    def modattr(self, m, n):
        if m == 'ctypes':
            if n in SIMPLE: return CT(n)
            if n in ('Structure', 'Union', 'BigEndianStructure'):
                if n != 'Structure': raise Unsupported(n)
                return self.structure()
            if n in ('POINTER', 'byref', 'pointer', 'cast', 'string_at', 'sizeof', 'addressof', 'CDLL', 'create_string_buffer', 'memmove'): return Builtin('ctypes.' + n)
            if n in ('cdll', 'util'): return ModV('ctypes.' + n)
            if n in ('Array', '_Pointer', '_SimpleCData'): return ClassV(n, [], {}, True)
            raise Unsupported('ctypes.' + n)
        if m == 'ctypes.cdll' and n == 'LoadLibrary': return Builtin('ctypes.CDLL')
        if m == 'enum':
            if n in ('Enum', 'IntEnum'): return self.enum(n)
            if n == 'unique': return Builtin('identity')
            raise Unsupported('enum.' + n)
        if m in ('weakref', 'threading', 'functools', 'itertools', 'operator', 'typing', 'collections', 'copy', 'contextlib', 'array', 'sys', 'warnings', 'abc', 'numbers', 'collections.abc', 'struct', 'types', 're', 'math'):
            if m == 'functools' and n == 'wraps': return Builtin('functools.wraps')
            if m == 'copy' and n in ('copy', 'deepcopy'): return Builtin('copy.' + n)
            if m == 'typing': return Builtin('typing')
            if m == 'operator' and n == 'index': return Builtin('operator.index')
            if m == 'sys' and n == 'maxsize': return 2 ** 63 - 1
            if m == 'sys' and n == 'platform': return 'linux'
            if m == 'collections' and n == 'abc': return ModV('collections.abc')
            raise Unsupported(f'{m}.{n}')
        if m == 'platform':
            return Builtin('platform.' + n)
        if m in ('os', 'pathlib', 'os.path', 'importlib', 'importlib.resources', 'sysconfig'):
            if m == 'os' and n == 'name': return 'posix'
            return ModPath()
        raise Unsupported(f'module {m}')
    def structure(self):
        if 'ctypes.Structure' not in self.cls: self.cls['ctypes.Structure'] = ClassV('Structure', [], {}, True)
        return self.cls['ctypes.Structure']
    def enum(self, n):
        if 'enum.Enum' not in self.cls:
            self.cls['enum.Enum'] = ClassV('Enum', [], {}, True)
            self.cls['enum.IntEnum'] = ClassV('IntEnum', [self.cls['enum.Enum'], self.cls['int']], {}, True)
        return self.cls['enum.' + n]
    def libfn(self, n):
        if not hasattr(self, 'libfns'): self.libfns = {}
        if n not in self.libfns: self.libfns[n] = LibFn(self.lib, n)
        return self.libfns[n]

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, line=0):
        self.depth += 1
        try:
            if self.depth > 60: raise Unsupported('deep recursion')
            return self.call_(f, list(args), dict(kw), line)
        finally: self.depth -= 1

    def call_(self, f, args, kw, line):
        if isinstance(f, Bound):
            if isinstance(f.f, FuncV): return self.func(f.f, [f.self_] + args, kw)
            return self.call(f.f, [f.self_] + args, kw, line)
        if isinstance(f, FuncV): return self.func(f, args, kw)
        if isinstance(f, Static): return self.call(f.f, args, kw, line)
        if isinstance(f, ClassV): return self.construct(f, args, kw)
        if isinstance(f, CT): return CObj(f, (args[0] if args else default(f)))
        if isinstance(f, ArrT):
            if len(args) == 1 and isinstance(args[0], Star): return ArrObj(f.t, f.n, args[0].v)
            if any(isinstance(a, Star) for a in args): raise Unsupported('star arguments')
            return ArrObj(f.t, f.n, tuple(args))
        if isinstance(f, LibFn): return self.native(f, args, kw, line)
        if isinstance(f, Builtin): return self.builtin(f, args, kw)
        if isinstance(f, ObjV): return self.call(self.attr(f, '__call__'), args, kw, line)
        if isinstance(f, ModPath): return ModPath()
        if f is None or isinstance(f, (int, str, float, tuple)): raise self.exc('TypeError', 'not callable')
        raise Unsupported('call of ' + type(f).__name__)

    def func(self, f, args, kw):
        n = f.node
        a = n.args
        if a.posonlyargs: params = a.posonlyargs + a.args
        else: params = a.args
        env = Env(f.env)
        names = [p.arg for p in params]
        if any(isinstance(x, Star) for x in args): raise Unsupported('star arguments')
        if len(args) > len(names) and a.vararg is None: raise self.exc('TypeError', f'{f.name}: too many arguments')
        for p, v in zip(names, args): env.v[p] = v
        if a.vararg is not None: env.v[a.vararg.arg] = tuple(args[len(names):])
        extra = []
        kwn = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in names and k not in env.v or k in kwn: env.v[k] = v
            elif a.kwarg is not None: extra.append((k, v))
            else: raise self.exc('TypeError', f'{f.name}: unexpected argument {k}')
        if a.kwarg is not None: env.v[a.kwarg.arg] = DictV(extra)
        for p, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            if p not in env.v: env.v[p] = d
        for p, d, dn in zip(kwn, f.kwdefaults, a.kw_defaults):
            if p not in env.v and dn is not None: env.v[p] = d
        for p in names + kwn:
            if p not in env.v: raise self.exc('TypeError', f'{f.name}: missing argument {p}')
        self.fns[f.name if f.owner is None else f'{f.owner.name}.{f.name}'] = n.lineno
        if f.owner is not None and names:
            env.v['\0self'], env.v['\0owner'] = env.v[names[0]], f.owner
        if isinstance(n, ast.Lambda): return self.ev(n.body, env)
        if f.gen:
            ys = Ys(); 
            if self.ystack is None: self.ystack = []
            self.ystack.append(ys)
            try: self.block(n.body, env)
            except Ret: pass
            finally: self.ystack.pop()
            g = SymIter(ys.sym) if ys.sym is not None else Gen(ys.items)
            g.keep = tuple(v for k, v in env.v.items() if isinstance(v, (ObjV, PtrV)))
            return g
        try: self.block(n.body, env)
        except Ret as r: return r.v
        return None

    def construct(self, c, args, kw):
        if c.builtin and c.name in TYPES: return self.convert(c.name, args, kw)
        if c.sub('Enum'):
            v = args[0]
            for m in c.attrs.values():
                if isinstance(m, ObjV):
                    if m is v: return m
                    if self.truth(self.compare('Eq', v, m.attrs['value'])): return m
            raise self.exc('ValueError', 'not an enum member')
        new, _ = c.lookup('__new__')
        if new is not None:
            o = self.call(new, [c] + args, kw)
        else:
            o = ObjV(c); self.objs.append(o)
        init, ic = c.lookup('__init__')
        if init is not None: self.call(Bound(init, o) if isinstance(init, FuncV) else init, args, kw)
        elif c.sub('BaseException'): o.attrs['args'] = tuple(args)
        elif c.sub('Structure'):
            fs = self.fields(c)
            for (nm, *_), v in zip(fs, args): o.attrs[nm] = v
            for k, v in kw.items(): o.attrs[k] = v
        elif args or kw: raise self.exc('TypeError', f'{c.name}() takes no arguments')
        return o

    def convert(self, t, args, kw):
        v = args[0] if args else None
        if isinstance(v, CObj) and t in ('int', 'float') : raise self.exc('TypeError', 'ctypes object')
        if t == 'object': return ObjV(self.cls['object'])
        if t == 'type':
            if len(args) != 1: raise Unsupported('type()')
            return self.type_(v)
        if not args:
            return {'int': 0, 'float': 0.0, 'bool': False, 'str': '', 'bytes': b'', 'bytearray': b'', 'list': LstV([]), 'tuple': (), 'dict': DictV([]), 'set': LstV([]), 'frozenset': ()}[t]
        if t == 'bool':
            if isinstance(v, (Cond, EqC)): return v
            if isinstance(v, Lin): return EqC(v, False)
            return self.truth(v)
        if t == 'int':
            if isinstance(v, (Cond, EqC)): return int(self.truth(v))
            if isinstance(v, Lin): return v
            if isinstance(v, (int, float)): return int(v)
            if isinstance(v, Sym) and v.sort in ('float', 'any'): return Lin({('int',) + v.key(): 1})
            if isinstance(v, Sym) and v.sort == 'str': raise Unsupported('int of text')
            if isinstance(v, str):
                try: return int(v)
                except ValueError: raise self.exc('ValueError')
            if isinstance(v, ObjV):
                for n in ('__int__', '__index__'):
                    if v.cls.lookup(n)[0] is not None: return self.call(self.attr(v, n), [], {})
                if v.cls.sub('IntEnum'): return v.attrs['value']
            raise self.exc('TypeError', 'int()')
        if t == 'float':
            if isinstance(v, Lin): return Sym('float', 'float', v.key())
            if isinstance(v, (int, float)): return float(v)
            if isinstance(v, Sym) and v.sort == 'float': return v
            if isinstance(v, Sym) and v.sort == 'any': return Sym('float', 'float', v.key())
            raise self.exc('TypeError', 'float()')
        if t == 'str':
            if isinstance(v, str): return v
            if isinstance(v, (Sym, bytes)) and len(args) > 1: return self.decode(v, args[1])
            if isinstance(v, Sym) and v.sort == 'str': return v
            if isinstance(v, ObjV):
                for n in ('__str__', '__repr__'):
                    if v.cls.lookup(n)[0] is not None: return self.call(self.attr(v, n), [], {})
            if isinstance(v, int): return str(v)
            return Sym('str', 'text', kk(v))
        if t in ('bytes', 'bytearray', 'memoryview'):
            if isinstance(v, Sym) and v.sort == 'bytes': return v
            if isinstance(v, Sym) and v.sort == 'list' and v.t[0] == 'elts': return Sym('bytes', 'bytesof', *v.t[1:])
            if isinstance(v, bytes): return v
            if isinstance(v, MapV):
                # bytes of [p[i] for i in range(n)]
                x = v.v
                if isinstance(x, Lin) and x.k == 0 and len(x.c) == 1:
                    ((a, c),) = x.c.items()
                    if c == 1 and a[0] == 'elt' and a[2] == v.i.key(): return Sym('bytes', 'bytesof', a[1], lin(v.n).key())
                raise Unsupported('bytes of computed items')
            if isinstance(v, ObjV) and v.cls.lookup('__bytes__')[0] is not None: return self.call(self.attr(v, '__bytes__'), [], {})
            if isinstance(v, ArrObj) and isinstance(v.content, Sym): return v.content
            if isinstance(v, LstV) and all(isinstance(x, int) for x in v.items): return bytes(v.items)
            raise Unsupported('bytes()')
        if t in ('list', 'tuple', 'set', 'frozenset'):
            if isinstance(v, Sym) and v.sort in ('seq', 'list') and t in ('list', 'tuple'): return v
            if isinstance(v, (MapV,)) and t in ('list', 'tuple'): return v
            if isinstance(v, SymIter) and v.pos == 0: return v.m
            if isinstance(v, RangeV) and not (isinstance(v.a, int) and isinstance(v.b, int)): return self.symbolic(v)
            if t in ('set', 'frozenset') and isinstance(v, Sym) and v.sort == 'seq':
                r = Sym('seq', 'set', v.t)
                self.assume(add(self.length(r), self.length(v), -1)); return r
            xs = self.items(v)
            return tuple(xs) if t in ('tuple', 'frozenset') else LstV(xs)
        if t == 'dict':
            return DictV([(k, v2) for k, v2 in kw.items()]) if not args else DictV(v.items if isinstance(v, DictV) else [tuple(self.items(x)) for x in self.items(v)])
        raise Unsupported('conversion ' + t)
    def decode(self, v, enc='utf-8'):
        if isinstance(v, bytes):
            try: return v.decode(enc)
            except Exception: raise self.exc('UnicodeDecodeError')
        if not isinstance(enc, str): raise Unsupported('encoding')
        e = enc.lower().replace('_', '-')
        e = 'utf-8' if e in ('utf8', 'utf-8', 'ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1') else e
        return Sym('str', 'decode', e, v.t)

    def builtin(self, f, args, kw):
        n = f.name
        if n in ('noop',): return None
        if n == 'identity': return args[0]
        if n == 'typing': return f
        if n == 'objnew':
            o = ObjV(args[0]); self.objs.append(o); return o
        if n == 'len': return self.length(args[0])
        if n == 'range':
            xs = [x if isint(x) else self.convert('int', [x], {}) for x in args]
            if len(xs) == 1: return RangeV(0, xs[0], 1)
            return RangeV(xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
        if n == 'isinstance': return self.isinst(args[0], args[1])
        if n == 'issubclass':
            ts = args[1] if isinstance(args[1], tuple) else (args[1],)
            return isinstance(args[0], ClassV) and any(t in args[0].mro() for t in ts)
        if n == 'hasattr':
            try: self.attr(args[0], args[1]); return True
            except Raised as e:
                if e.v.cls.sub('AttributeError'): return False
                raise
        if n == 'getattr':
            if not isinstance(args[1], str): raise Unsupported('getattr')
            try: return self.attr(args[0], args[1])
            except Raised as e:
                if len(args) > 2 and e.v.cls.sub('AttributeError'): return args[2]
                raise
        if n == 'setattr': self.setattr(args[0], args[1], args[2]); return None
        if n == 'delattr':
            args[0].attrs.pop(args[1], None); return None
        if n == 'callable': return isinstance(args[0], (FuncV, Bound, ClassV, LibFn, Builtin))
        if n == 'abs':
            v = args[0]
            if isint(v): return scale(v, -1) if self.truth(self.compare('Lt', v, 0)) else v
            if isinstance(v, float): return abs(v)
            return Sym('float', 'abs', kk(v))
        if n in ('max', 'min'):
            xs = args if len(args) > 1 else self.items(args[0])
            if kw: raise Unsupported('max key')
            if not all(isint(x) for x in xs):
                if any(isinstance(x, Sym) for x in xs): return Sym('float', n, *[kk(x) for x in xs])
            b = xs[0]
            for x in xs[1:]:
                if self.truth(self.compare('Gt' if n == 'max' else 'Lt', x, b)): b = x
            return b
        if n == 'divmod': return (self.binop('FloorDiv', *args), self.binop('Mod', *args))
        if n == 'property':
            return Static(args[0], 'property')
        if n == 'staticmethod': return Static(args[0], 'static')
        if n == 'classmethod': return Static(args[0], 'class')
        if n == 'super': return SuperV(args[1], args[0])
        if n == 'iter':
            v = args[0]
            if isinstance(v, ObjV):
                if v.cls.lookup('__iter__')[0] is not None:
                    r = self.call(self.attr(v, '__iter__'), [], {})
                    if isinstance(r, ObjV) and r.cls.lookup('__next__')[0] is None: raise self.exc('TypeError', 'iter() returned non-iterator')
                    return r
                if v.cls.lookup('__getitem__')[0] is not None: return SeqIter(v)
                raise self.exc('TypeError', 'not iterable')
            if isinstance(v, (Gen, SymIter)): return v
            m = self.symbolic(v)
            if m is not None: return SymIter(m)
            return Gen(self.items(v))
        if n == 'next':
            v = args[0]
            try: return self.next_(v)
            except Raised as e:
                if len(args) > 1 and e.v.cls.sub('StopIteration'): return args[1]
                raise
        if n == 'enumerate':
            m = self.symbolic(args[0])
            if m is not None: return MapV(m.n, m.i, (m.i, m.v))
            return LstV([(i, x) for i, x in enumerate(self.items(args[0]))])
        if n == 'zip': return LstV(list(zip(*[self.items(a) for a in args])))
        if n == 'map':
            v = args[1]; m = self.symbolic(v)
            if m is not None and not isinstance(m.n, int):
                x = self.generic(m, lambda: self.call(args[0], [m.v], {}))
                if isinstance(v, Sym) and isinstance(x, Lin) and x.key() == m.v.key(): return v
                return MapV(m.n, m.i, x)
            return LstV([self.call(args[0], [x], {}) for x in self.items(v)])
        if n in ('any', 'all'):
            for x in self.walk(args[0]):
                if self.truth(x) == (n == 'any'): return n == 'any'
            return n == 'all'
        if n == 'sum':
            t = 0
            for x in self.walk(args[0]): t = self.binop('Add', t, x)
            return t
        if n == 'print': return None
        if n in ('repr', 'format'): return Sym('str', 'text')
        if n in ('id', 'hash'): return atom('id', id(args[0]))
        if n == 'reversed': return LstV(list(reversed(self.items(args[0]))))
        if n == 'sorted':
            v = args[0]
            if isinstance(v, Sym):
                r = Sym('seq', 'sorted', v.t); d = add(self.length(r), self.length(v), -1)
                self.assume(d); self.assume(scale(d, -1))
                return r
            raise Unsupported('sorted')
        if n == 'vars': return self.attr(args[0], '__dict__')
        if n == 'operator.index': return args[0]
        if n == 'functools.wraps': return Builtin('identity')
        if n == 'copy.copy': return self.copy(args[0])
        if n == 'platform.system': return 'Linux'
        if n == 'platform.machine': return 'x86_64'
        if n == 'platform.uname': return Builtin('platform.uname()')
        if n.startswith('platform.'): return 'x86_64'
        if n == 'ctypes.CDLL':
            if self.lib is None: self.lib = LibV()
            return self.lib
        if n == 'ctypes.POINTER': return PtrT(args[0])
        if n == 'ctypes.sizeof': raise Unsupported('sizeof')
        if n in ('ctypes.byref', 'ctypes.pointer'): return RefV(args[0])
        if n == 'ctypes.cast':
            p, t = args
            if isinstance(p, CObj) and isinstance(p.v, PtrV): p = p.v
            if isinstance(p, PtrV):
                if isinstance(t, CT) and t.name == 'c_char_p': return CastV(p, t)
                if isinstance(t, CT) and t.name == 'c_void_p': return CObj(t, PtrV(None, p.src))
                if isinstance(t, PtrT): return PtrV(t.t, p.src)
            if isinstance(p, ArrObj) or isinstance(p, RefV): return p
            if isinstance(p, (Sym, bytes)) and isinstance(t, CT): return CObj(t, p)
            if p is None: return None
            raise Unsupported('cast')
        if n == 'ctypes.string_at':
            p = args[0]
            if isinstance(p, CObj): p = p.v
            if isinstance(p, CastV): p = p.p
            if not isinstance(p, PtrV): raise Unsupported('string_at')
            if len(args) > 1 and not (isinstance(args[1], int) and args[1] == -1):
                sz = args[1].v if isinstance(args[1], CObj) else args[1]
                self.events.append(('read', p.key(), 0, lin(sz).key()))
                return Sym('bytes', 'bytesof', p.key(), lin(sz).key())
            self.events.append(('read', p.key(), 'cstr', None))
            return Sym('bytes', 'cstr', p.key())
        if n == 'ctypes.create_string_buffer':
            if isinstance(args[0], Sym): return ArrObj(CT('c_char'), (args[1] if len(args) > 1 else add(self.length(args[0]), 1)), args[0])
            raise Unsupported(n)
        if n in ('arr.from_buffer', 'arr.from_buffer_copy'):
            t = f.extra; src = args[0]
            if isinstance(src, ArrObj): src = src.content
            if len(args) > 1 and args[1] != 0: raise Unsupported('offset')
            sl = self.length(src)
            if not self.implied(add(t.n, sl, -1)):
                if self.truth(self.compare('Gt', t.n, sl)): raise self.exc('ValueError', 'buffer size')
            return ArrObj(t.t, t.n, src)
        if n.startswith('m.'): return self.method(n[2:], f.extra, args, kw)
        if n == 'prop.setter' or n == 'prop.deleter': return Builtin('identity_prop', f.extra)
        if n == 'identity_prop': raise Unsupported('property setter')
        if n in ('bytes.fromhex', 'int.from_bytes'): raise Unsupported(n)
        if n == 'object.__new__': return self.builtin(Builtin('objnew'), args, kw)
        if n in ('object.__init__', 'object.__setattr__'): return None
        raise Unsupported('builtin ' + n)

    def next_(self, v):
        if isinstance(v, ObjV): return self.call(self.attr(v, '__next__'), [], {})
        if isinstance(v, Gen):
            if v.pos >= len(v.items): raise self.exc('StopIteration')
            v.pos += 1; return v.items[v.pos - 1]
        if isinstance(v, SymIter):
            if self.truth(self.compare('GtE', v.pos, v.m.n)): raise self.exc('StopIteration')
            x = self.subst(v.m.v, v.m.i, v.pos); v.pos = add(v.pos, 1); return x
        if isinstance(v, SeqIter):
            try: x = self.item(v.o, v.pos)
            except Raised as e:
                if e.v.cls.sub('IndexError'): raise self.exc('StopIteration')
                raise
            v.pos = add(v.pos, 1); return x
        raise self.exc('TypeError', 'not an iterator')

    def isinst(self, v, t):
        if isinstance(t, tuple): return any(self.isinst(v, x) for x in t)
        if isinstance(v, Sym) and v.sort == 'any': return self.guess(('isinstance', v.t, repr(t)))
        k = self.type_(v)
        if isinstance(k, ClassV) and isinstance(t, ClassV):
            if isinstance(v, Sym) and v.sort in ('seq', 'list') and t.name in ('tuple',): return self.guess(('isinstance', v.t, t.name))
            if isinstance(v, Sym) and v.sort == 'bytes' and t.name in ('bytearray', 'memoryview'): return False
            return t in k.mro() or t.name == 'object'
        if isinstance(k, PtrT) and isinstance(t, PtrT): return k.t is t.t or (isinstance(k.t, CT) and k.t == t.t)
        if isinstance(t, ClassV) and t.name == '_Pointer': return isinstance(k, PtrT)
        if isinstance(t, ClassV) and t.name == '_SimpleCData': return isinstance(k, CT)
        if isinstance(k, CT) and isinstance(t, CT): return k == t
        return False

    def copy(self, o):
        if not isinstance(o, ObjV): return o
        f, _ = o.cls.lookup('__copy__')
        if f is not None: return self.call(self.attr(o, '__copy__'), [], {})
        for n in ('__reduce__', '__reduce_ex__', '__getstate__'):
            f, _ = o.cls.lookup(n)
            if f is not None:
                self.call(self.attr(o, n), [] if n != '__reduce_ex__' else [4], {})
                raise Unsupported(n)
        c = ObjV(o.cls); c.attrs = dict(o.attrs); c.native = o.native
        self.objs.append(c)
        return c

    def method(self, n, o, args, kw):
        k = kindof(o)
        if k == 'str' and isinstance(o, str):
            if n in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'format', 'join', 'lstrip', 'rstrip', 'encode', 'title', 'capitalize'):
                if n == 'join': 
                    xs = self.items(args[0])
                    return o.join(xs) if all(isinstance(x, str) for x in xs) else Sym('str', 'text')
                if all(isinstance(a, (str, int, tuple)) for a in args):
                    try: r = getattr(o, n)(*args, **kw)
                    except Exception: raise Unsupported('text method')
                    return LstV(r) if isinstance(r, list) else r
                return Sym('str', 'text')
        if k == 'symstr':
            if n in ('strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'encode', 'format'):
                return Sym('str' if n != 'encode' else 'bytes', n, o.t, *[kk(a) for a in args])
        if k == 'bytes':
            if n == 'decode': return self.decode(o, args[0] if args else kw.get('encoding', 'utf-8'))
            if n in ('rstrip', 'strip', 'lstrip'): return Sym('bytes', n, getattr(o, 't', o), *[kk(a) for a in args])
            if n == 'hex': return Sym('str', 'hex')
        if k == 'list':
            if n == 'append': o.items.append(args[0]); return None
            if n == 'extend': o.items += self.items(args[0]); return None
            if n == 'pop': return o.items.pop(*args)
            if n == 'copy': return LstV(o.items)
            if n == 'insert': o.items.insert(*args); return None
            if n == 'reverse': o.items.reverse(); return None
            if n == 'index':
                for i, x in enumerate(o.items):
                    if self.truth(self.compare('Eq', x, args[0])): return i
                raise self.exc('ValueError')
            if n == 'clear': o.items.clear(); return None
        if k == 'dict':
            if n == 'items': return LstV([(a, b) for a, b in o.items])
            if n == 'keys': return LstV([a for a, _ in o.items])
            if n == 'values': return LstV([b for _, b in o.items])
            if n == 'get':
                for a, b in o.items:
                    if self.truth(self.compare('Eq', a, args[0])): return b
                return args[1] if len(args) > 1 else None
            if n == 'setdefault':
                for a, b in o.items:
                    if self.truth(self.compare('Eq', a, args[0])): return b
                o.items.append((args[0], args[1])); return args[1]
            if n == 'pop':
                for i, (a, b) in enumerate(o.items):
                    if self.truth(self.compare('Eq', a, args[0])): del o.items[i]; return b
                if len(args) > 1: return args[1]
                raise self.exc('KeyError')
            if n == 'update':
                for a, b in (args[0].items if args else []): self.setitem(o, a, b)
                for a, b in kw.items(): self.setitem(o, a, b)
                return None
        if k in ('gen',) and n in ('__next__', '__iter__'):
            return self.next_(o) if n == '__next__' else o
        if k == 'array' and n == '__len__': return o.n
        if k == 'int' and n in ('__index__', '__int__'): return o
        if n == '__iter__': return self.builtin(Builtin('iter'), [o], {})
        raise Unsupported(f'method {n} of {k}')

    # ------------------------------------------------------------ native calls
    def native(self, f, args, kw, line):
        if kw: raise self.exc('TypeError', 'keyword argument to a native function')
        k = len([e for e in self.events if e[0] == 'call'])
        at = f.attrs.get('argtypes')
        at = None if at is None else self.items(at)
        if at is not None and len(args) < len(at): raise self.exc('TypeError', 'native call: too few arguments')
        na = []
        for i, a in enumerate(args):
            na.append(self.narg(a, at[i] if at is not None and i < len(at) else None))
        rt = f.attrs.get('restype', CT('c_int'))
        res = None
        if isinstance(rt, CT):
            kind = SIMPLE[rt.name]
            if kind[0] == 'int':
                res = atom('ret', k)
                lo, hi = (-(1 << (kind[1] - 1)), (1 << (kind[1] - 1)) - 1) if kind[2] else (0, (1 << kind[1]) - 1)
                if f.name in BOOLRET: lo, hi = 0, 1
                self.assume(add(lo, res, -1)); self.assume(add(res, hi, -1))
            elif kind[0] == 'bool': res = EqC(atom('ret', k), False); self.assume(scale(atom('ret', k), -1)); self.assume(add(atom('ret', k), -1))
            elif kind[0] == 'float': res = Sym('float', 'ret', k)
            elif rt.name == 'c_char_p':
                self.events_pre = None
                res = Sym('bytes', 'cstr', ('ptr', 'ret', k))
            elif kind[0] == 'ptr': res = PtrV(None, ('ret', k))
            else: raise Unsupported('result type')
        elif isinstance(rt, PtrT): res = PtrV(rt.t, ('ret', k))
        elif isinstance(rt, ClassV) and rt.sub('Structure'):
            res = ObjV(rt); res.native = k
        elif rt is None: res = None
        elif isinstance(rt, (FuncV, Bound, Builtin)):
            raise Unsupported('restype callable')
        else: raise Unsupported('restype')
        ev = ('call', k, f.name, tuple(na), line)
        self.events.append(ev)
        for i, a in enumerate(args):
            if isinstance(a, RefV) and isinstance(a.o, CObj):
                kind = SIMPLE[a.o.t.name]
                if kind[0] != 'int': raise Unsupported('out parameter')
                v = atom('out', k, i)
                lo, hi = (-(1 << (kind[1] - 1)), (1 << (kind[1] - 1)) - 1) if kind[2] else (0, (1 << kind[1]) - 1)
                self.assume(add(lo, v, -1)); self.assume(add(v, hi, -1))
                a.o.v = v
            elif isinstance(a, RefV): raise Unsupported('reference argument')
        if f.attrs.get('errcheck') is not None: return self.call(f.attrs['errcheck'], [res, f, tuple(args)], {})
        return res

    def narg(self, a, t):
        """a value handed to a native function"""
        if isinstance(t, CT) and SIMPLE[t.name][0] == 'int':
            bits, sg = SIMPLE[t.name][1:]
            v = a.v if isinstance(a, CObj) else a
            if isinstance(v, bool): v = int(v)
            if isinstance(v, (Cond, EqC)): v = int(self.truth(v))
            if isinstance(v, (float,)) or isinstance(v, Sym): raise self.exc('TypeError', 'native argument')
            if not isint(v): raise self.exc('TypeError', 'native argument')
            if isinstance(v, int):
                v &= (1 << bits) - 1
                if sg and v >> (bits - 1): v -= 1 << bits
                return ('int', lin(v).key())
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if self.implied(add(lo, v, -1)) and self.implied(add(v, hi, -1)): return ('int', lin(v).key())
            return ('trunc', bits, lin(v).key())
        if isinstance(t, CT) and SIMPLE[t.name][0] == 'float':
            v = a.v if isinstance(a, CObj) else a
            if isint(v): return ('float', Sym('float', 'float', lin(v).key()).key())
            return ('float', kk(v))
        if isinstance(a, CObj): a = a.v
        if isinstance(a, CastV): return ('ptr', a.p.src)
        if isinstance(a, (Cond, EqC)): a = int(self.truth(a))
        if isint(a): return ('int', lin(a).key())
        if a is None: return ('null',)
        if isinstance(a, PtrV): return ('ptr', a.src)
        if isinstance(a, RefV): return ('ref', repr(a.o.t) if isinstance(a.o, CObj) else '?')
        if isinstance(a, ArrObj):
            c = a.content
            if isinstance(c, Sym): return ('array', repr(a.t), lin(a.n).key(), c.key())
            if isinstance(c, MapV):
                i0 = atom('index', 0)
                return ('array', repr(a.t), lin(a.n).key(), ('map', lin(c.n).key(), kk(self.subst(c.v, c.i, i0))))
            return ('array', repr(a.t), lin(a.n).key(), ('items',) + tuple(kk(x) for x in c))
        if isinstance(a, ObjV) and a.cls.sub('Structure'):
            if a.native is not None: return ('handle', a.native)
            return ('struct', a.cls.name)
        if isinstance(a, Sym) and a.sort in ('bytes', 'str'): return ('pybuf', a.key())
        if isinstance(a, bytes): return ('pybuf', a)
        if isinstance(a, Sym): return ('sym', a.key())
        if isinstance(a, float): return ('float', a)
        raise self.exc('TypeError', 'native argument')

class Star:
    def __init__(self, v): self.v = v
class Ys:
    def __init__(self): self.items, self.sym = [], None
class CastV:
    def __init__(self, p, t): self.p, self.t = p, t
class SeqIter:
    def __init__(self, o): self.o, self.pos, self.keep = o, 0, (o,)
class ModPath: pass

METHODS = {
    'str': {'lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'format', 'join', 'lstrip', 'rstrip', 'encode', 'title', 'capitalize'},
    'symstr': {'strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'encode', 'format'},
    'bytes': {'decode', 'rstrip', 'strip', 'lstrip', 'hex'},
    'list': {'append', 'extend', 'pop', 'copy', 'insert', 'reverse', 'index', 'clear', '__iter__'},
    'dict': {'items', 'keys', 'values', 'get', 'setdefault', 'pop', 'update'},
    'gen': {'__next__', '__iter__'}, 'array': {'__len__'}, 'int': {'__index__', '__int__'}, 'tuple': {'__iter__'}, 'other': set(),
}
def kindof(o):
    if isinstance(o, str): return 'str'
    if isinstance(o, bytes): return 'bytes'
    if isinstance(o, Sym): return {'str': 'symstr', 'bytes': 'bytes'}.get(o.sort, 'other')
    if isinstance(o, LstV): return 'list'
    if isinstance(o, DictV): return 'dict'
    if isinstance(o, (Gen, SymIter)): return 'gen'
    if isinstance(o, ArrObj): return 'array'
    if isint(o): return 'int'
    if isinstance(o, tuple): return 'tuple'
    return 'other'

def default(t):
    k = SIMPLE[t.name][0]
    return {'int': 0, 'bool': False, 'float': 0.0, 'ptr': None, 'char': b'\0'}[k]

def kk(v):
    """hashable identity of a value"""
    if isinstance(v, Lin): return ('lin',) + v.key()
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)): return v
    if isinstance(v, int): return ('lin',) + lin(v).key()
    if isinstance(v, float): return ('f', v)
    if isinstance(v, (Sym, PtrV)): return v.key()
    if isinstance(v, tuple): return ('tup',) + tuple(kk(x) for x in v)
    if isinstance(v, LstV): return ('lst',) + tuple(kk(x) for x in v.items)
    if isinstance(v, MapV): return ('map', lin(v.n).key(), v.i.key(), kk(v.v))
    if isinstance(v, EqC): return ('eq0', lin(v.x).key(), v.pos)
    if isinstance(v, Cond): return ('cond', v.kind, lin(v.x).key() if v.kind == 'le' else v.x, v.pos)
    if isinstance(v, ObjV) and v.native is not None: return ('handle', v.native)
    return ('id', id(v))

def is_gen(fn):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)): return True
            if walk(c): return True
        return False
    return walk(fn)

class Path:
    def __init__(self, it, kind, val, line=0): self.it, self.kind, self.val, self.line = it, kind, val, line

def explore(tree, scenario, limit=400):
    """every path of scenario(interp); returns Paths (kind: 'ret' | 'raise' | 'cut')"""
    out, stack = [], [[]]
    while stack:
        script = stack.pop()
        it = Interp(tree, script)
        try:
            it.module()
            it.modsteps = it.steps; it.steps = 0
            v = scenario(it)
            p = Path(it, 'ret', v)
        except Raised as e: p = Path(it, 'raise', e.v, e.line)
        except Cut: p = Path(it, 'cut', None)
        except Infeasible: p = None
        if p is not None: out.append(p)
        for k in range(len(script), len(it.taken)):
            stack.append(it.taken[:k] + [not it.taken[k]])
        if len(out) > limit: raise Unsupported('too many paths')
    return out
