"""Finding the functions the properties are about by public type, trait and method name."""
import re
from chk import Anchor

def tyre(ty):
    """regex for a (possibly generic) crate type, whatever module it lives in"""
    m = re.match(r'^(\w+)(?:<(.*)>)?$', ty)
    n, a = m.group(1), m.group(2)
    r = r'(?:\w+::)*' + n
    if a is not None: r += r'(?:::)?<' + r"(?:'\w+, )?" + re.escape(a) + r'>'
    return r

def K(prog, ty, meth, trait=None, ref=False):
    """body key of an inherent (trait None) or trait method"""
    if trait is None: rx = r'^' + tyre(ty) + r'::' + meth + r'(?:::<.*>)?$'
    else: rx = r'^<' + ('&' if ref else '') + tyre(ty) + r"(?:<'_>)? as (?:\w+::)*" + trait + r'(?:<.*>)?>::' + meth + r'(?:::<.*>)?$'
    c = [k for k in prog.bodies if re.match(rx, k) and not k.startswith('closure@') and '::tests::' not in k]
    if len(c) > 1: c = [k for k in c if not k.endswith('>')] or c
    if len(c) != 1:
        raise Anchor(f'{ty}{" as " + trait if trait else ""}::{meth} ({len(c)} candidates)')
    return c[0]

def ty_of(prog, ty):
    rx = re.compile(r'^' + tyre(ty) + r"(?:<'_>)?$")
    c = [k for k in prog.types if rx.match(k)]
    if len(c) != 1: raise Anchor(f'type {ty} ({len(c)} candidates)')
    return c[0]

NUM = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'f32', 'f64']
