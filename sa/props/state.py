"""Representation beyond what the observers show.

An obligation starts from an unknown value of the type: every combination of field values.  That is right while each
field is the answer of one observer (the direction, the counts, the table of entries).  A further field (a cache, a
running total) only takes values that agree with the others, and which ones is not known.  Then the unknown value is
replaced by one that a short unknown history of operations reaches, so that whatever is reported can happen."""
from vals import *
import terms as tm

def leaves(t):
    if t.op != 'tup': return [t]
    return [x for a in t.args for x in leaves(a)]

def named(p, ty, t, pre=''):
    """(field path, type, value) of the parts of a record"""
    fs = p.types[ty]['variants'][0]['fields'] if ty in p.types and p.types[ty].get('variants') else None
    if t.op != 'tup' or not fs or len(fs) != len(t.args): return [(pre, ty, x) for x in leaves(t)]
    return [q for f, x in zip(fs, t.args) for q in named(p, f[1], x, f'{pre}.{f[0]}' if pre else f[0])]

def extra(p, ty, t, known):
    """fields holding more than the known values"""
    return [n for n, fty, x in named(p, ty, t) if 'PhantomData' not in fty and fty != '()' and not any(x is k for k in known)]

def replace(t, old, new):
    if t is old: return new
    if t.op == 'tup': return tup(*[replace(a, old, new) for a in t.args])
    return t
