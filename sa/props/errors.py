"""Which kind of error each fallible operation reports."""
from vals import *
import terms as tm
from chk import Anchor
from props.names import *
from props.graph import Gx, SG, CG, GR, sect
from props.matrix import each
import props.codec as D

FORMAT, INPUT, CAPACITY = 'InvalidFormat', 'InvalidInput', 'CapacityOverflow'

def alts(ev, r):
    """[(guard, variant index, fields)] of an enum value, through selections"""
    if r.op == 'rv': r = r.args[0]
    if r.op == 'ite':
        g, a, b = r.args
        return [(band(g, h), v, f) for h, v, f in alts(ev, a)] + [(band(bnot(g), h), v, f) for h, v, f in alts(ev, b)]
    if r.op != 'en': r = ev.expand(r, '?')
    if r.op != 'en': raise Unsupported('result of unknown shape')
    return [(g, v, f) for v, g, f in tm.en_alts(r)]

def kinds(p):
    t = p.types[ty_of(p, 'GraphRoxError')]
    return [v['name'] for v in t['variants']]

def judge(ck, x, fn, R, want, what):
    names = kinds(x.p)
    if want not in names: raise Anchor(f'GraphRoxError::{want}')
    bad = []
    n = 0
    for g, v, f in alts(R.ev, R.ret):
        if v != 1: continue
        for h, k, _ in alts(R.ev, f[0]):
            n += 1
            if names[k] != want: bad.append((band(R.pc, g, h), names[k]))
    nm = f'{what}: every failure is {want}'
    if not n: ck.unk(nm, fn, 'no error value recognised'); return
    if not bad: ck.ok(nm, fn, f'{n} error values')
    for g, k in bad:
        if g is FALSE: continue
        ck.holds(nm + f' and never {k}', fn, bnot(g))

def o_kinds(ck, W):
    def std(fn):
        x = Gx(ck, W); ck.gens = (D.gen_std,)
        judge(ck, x, fn, x.run(x.key('try_from', 'TryFrom'), [rv(app('bytes_in', sort='seq'))]), FORMAT, 'graph decoder')
    sect(ck, 'decode', f'{SG}::try_from', std)
    def cmp(fn):
        x = D.Cx(ck, W); ck.gens = (D.gen_cmp,)
        judge(ck, x, fn, x.run(x.key('try_from', 'TryFrom'), [rv(app('bytes_in', sort='seq'))]), FORMAT, 'compressed graph decoder')
    sect(ck, 'decode', f'{CG}::try_from', cmp)
    def und(fn):
        x = Gx(ck, W)
        judge(ck, x, fn, x.run(x.key('undirected_from'), [x.M]), FORMAT, 'undirected_from')
    sect(ck, 'undirected_from', f'{SG}::undirected_from', und)
    for ty in (SG, CG):
        def enc(fn, ty=ty):
            x = Gx(ck, W) if ty == SG else D.Cx(ck, W)
            judge(ck, x, fn, x.run(x.key('to_bytes', GR), [rv(x.pre)]), CAPACITY, 'encoder')
        sect(ck, 'encode', f'{ty}::to_bytes', enc)
    def txt(x, fn): judge(ck, x, fn, W.run(ck, x.key('try_to_string'), [rv(x.pre)]), CAPACITY, 'text')
    each(ck, W, ['adj'], 'text', 'try_to_string', txt)
    def fwd(fn):
        x = Gx(ck, W)
        R = x.run(x.key('matrix_string', GR), [rv(x.pre)])
        s = app('mattext', x.M, sort='seq')
        es = [(band(R.pc, g), f[0]) for g, v, f in alts(R.ev, R.ret) if v == 1]
        if not es: ck.unk('matrix text: the matrix\'s own error is reported', fn, 'no error value recognised')
        for g, e in es:
            if e.op == 'en':
                names = kinds(x.p)
                for h, k, _ in alts(R.ev, e):
                    if names[k] != CAPACITY: ck.holds(f'matrix text: a failure of the matrix is never reported as {names[k]}', fn, bnot(band(g, h)))
                    else: ck.ok('matrix text: every failure is CapacityOverflow', fn)
            else: ck.eq('matrix text: the matrix\'s own error is reported', fn, e, app('err', s, sort='obj'), g)
    sect(ck, 'matrix_string', f'{SG}::matrix_string', fwd)
