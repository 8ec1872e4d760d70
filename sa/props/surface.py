"""The public surface as a whole: every operation returns, values own what they hold, nothing can be forged.

These obligations enumerate the exported items of the type-checked crate rather than naming functions."""
import re
from vals import *
from mat import *
import vals, terms as tm, contracts
import chk
from chk import Limit, TimeUp
from props.names import *
from props.matrix import Mx
from props.codec import gen_std, gen_cmp

# operations decided by their own obligations (decoders with the facts their loops establish, matrix mutators under the representation invariant, iterator steps by
# simulation) or outside the fragment: text formatting of numbers (see C25)
APART = {'try_from', 'set_entry', 'zero_entry', 'increment_entry', 'next', 'fmt', 'to_string_with_precision'}

def exported(p): return [i for i in p.items if i.get('exported') and '::tests::' not in i['path']]

def arguments(W, p, b, con, tag=''):
    # names are per function: what is assumed about an argument of one says nothing about another's
    st, args = {}, []
    for i in range(b['argc']):
        t = b['locals'][i + 1][0]
        if t.startswith('&mut '):
            st[f'P{i}'] = W.typed(f'{tag}a{i}', t[5:], con, p); args.append(mk('ref', f'P{i}'))
        else: args.append(W.typed(f'{tag}a{i}', t, con, p))
    return st, args

def o_total(ck, W):
    """an exported operation of the library returns for every argument"""
    p = W.core
    lay, _ = contracts.layer()
    pk = K(p, 'StandardGraph', 'find_avg_pool_matrix')
    h = contracts.PoolLayer(pk)
    n = 0
    for it in exported(p):
        if it['path'].rsplit('::', 1)[-1] in APART: continue
        for key in it['keys']:
            if key not in p.bodies: continue
            n += 1
            def f(key=key):
                con = () if contracts.match({'key': key}) else lay if key == pk else [(h.match, h)] + list(lay)
                st, args = arguments(W, p, p.bodies[key], con, f'{key}#')
                inv = TRUE
                # a compressed graph whose blocks lie inside its vertex count has at most 2^61 blocks a side
                for v in list(st.values()) + [a.args[0] if a.op == 'rv' else a for a in args]:
                    for m in tm.subterms(v):
                        if not isinstance(m, B) and sort_of(m) == 'mat' and 'ompressed' in key: DIMB[m] = 1 << 61
                old, ck.gens = ck.gens, ()
                for a in args:
                    x = a.args[0] if a.op == 'rv' else a
                    if sort_of(x) == 'seq' and 'TryFrom<&[u8]>' in key: ck.gens = (gen_cmp if 'Compressed' in key else gen_std,)
                try:
                    R = W.run(ck, key, args, st, con)
                    ck.total('operation', key, R, inv)
                finally: ck.gens = old
            ck.section('every operation returns', key, f)
    if not n: ck.viol('every operation returns', '-', 'no exported operation found')

# ------------------------------------------------------------------ ownership
VALUES = ['StandardGraph', 'CompressedGraph', 'CompressedGraphBuilder', 'CsrAdjacencyMatrix', 'CsrSquareMatrix', 'GraphRoxError',
          'StandardGraphIter', 'CsrAdjacencyMatrixIter', 'CsrSquareMatrixIter']
ONCE = re.compile(r'(?:OnceLock|OnceBox|LazyLock|::Once)\b')
SHARED = re.compile(r'(?:^|::)(?:Rc|Arc|UnsafeCell|RwLock|Mutex|Atomic\w*|dyn)$')

def o_own(ck, W):
    """values of the public types can be moved to and read from any thread, and own their contents"""
    tps = [s for s in W.core.surface if s['exported']]
    for v in VALUES:
        if not any(re.search(r'\b' + v + r'\b', s['type']) for s in tps): ck.viol('public type', v, 'the type is not exported')
    for s in tps:
        t = f"{s['type']} ({s['span']})"
        for tr, ok in (('Send', s['send']), ('Sync', s['sync'])):
            if ok: ck.ok(f'{tr}: values can be {"sent to" if tr == "Send" else "read from"} other threads', t)
            else: ck.viol(f'{tr}: values can be {"sent to" if tr == "Send" else "read from"} other threads', t, f'the type does not implement {tr}')
        bad = sorted(r for r in s['reach'] if SHARED.search(r))
        nm = 'values own their contents: no shared or interior-mutable storage'
        if not bad: ck.ok(nm, t, f"{len(s['reach'])} types reached")
        elif any(ONCE.search(r) for r in s['reach']) and not any(re.search(r'(?:^|::)(?:Rc|RwLock|Mutex|RefCell|Cell)$', r) for r in s['reach']):
            ck.unk(nm, t, 'write-once storage: ' + ', '.join(bad))
        elif any(re.search(r'(?:^|::)Arc$', r) for r in bad) and not any(re.search(r'(?:^|::)(?:Rc|RwLock|Mutex|RefCell|Cell)$', r) for r in s['reach']):
            ck.unk(nm, t, 'reference-counted storage (copy on write?): ' + ', '.join(bad))
        else: ck.viol(nm, t, 'reaches ' + ', '.join(r for r in s['reach'] if SHARED.search(r) or re.search(r'(?:^|::)(?:RefCell|Cell)$', r)))

def o_state(ck, W):
    """no operation can depend on mutable state outside its arguments: there is none"""
    for p, nm in ((W.core, 'graphrox'), (W.capi, 'graphrox-c')):
        if p is None: continue
        for path, ty, mut, freeze in p.statics:
            if not mut and freeze: ck.ok('no mutable global state', f'{nm}: {path}', 'immutable'); continue
            if ONCE.search(ty + ' ') and not re.search(r'\b(?:Mutex|RwLock|RefCell|Cell|Atomic\w*)\b', ty):
                ck.unk('no mutable global state', f'{nm}: {path}', 'write-once: ' + ty); continue
            ck.viol('no mutable global state', f'{nm}: {path}', f'{"mutable " if mut else ""}static of type {ty}: calls can influence each other')
        ck.ok('no mutable global state', nm, f'{len(p.statics)} statics')

# ------------------------------------------------------------------ encapsulation
UNSAFE = [('StandardGraph', 'undirected_from_unchecked', None), ('CompressedGraphBuilder', 'finish', None)]

def o_sealed(ck, W):
    """a graph or matrix can be made or changed only by the operations"""
    p = W.core
    types = {s['type']: s for s in p.surface}
    for s in p.surface:
        if not s['exported'] or 'Error' in s['type'].rsplit('::', 1)[-1].split('<')[0]: continue
        t = p.types.get(s['type'])
        if not t or not t.get('variants'): ck.unk('fields are private', s['type'], 'no field list'); continue
        for v in t['variants']:
            for f in v['fields']:
                if f[2]: ck.viol('fields are private', f"{s['type']}.{f[0]}", f'a public field: any caller can replace this {f[1]} without the checks of the operations')
                else: ck.ok('fields are private', f"{s['type']}.{f[0]}")
    for i in exported(p):
        own = (i['impl'] or '').split('<')[0]
        bad = [o for o in i['mutouts'] if strip(o) != strip('&mut ' + (i['impl'] or '')) and local(o, p)]
        if bad and not i['unsafe']: ck.viol('no operation hands out mutable access to contents', i['path'], f'returns {bad[0]}')
        else: ck.ok('no operation hands out mutable access to contents', i['path'])
    # blocks nobody checked become a compressed graph through an unsafe function only
    for key, b in sorted(p.bodies.items()):
        if b['crate_'] != 'graphrox' or '::tests::' in key or key.startswith('closure@'): continue
        it = [i for i in exported(p) if key in i['keys']]
        tys = [b['locals'][i + 1][0] for i in range(b['argc'])]; ret = b['locals'][0][0]
        if not it or ret.startswith('&') or not re.search(r'\bCompressedGraph\b', ret) or 'Option<' in ret or 'Result<' in ret: continue
        raw = [t for t in tys if re.search(r'\bCompressedGraphBuilder\b|\bCsrSquareMatrix<u64>', t)]
        if not raw: continue
        if all(i['unsafe'] for i in it): ck.ok('unchecked construction is unsafe', key)
        else: ck.viol('unchecked construction is unsafe', key, f'makes a compressed graph of the blocks of a {raw[0]} from safe code')
    for ty, m, tr in UNSAFE:
        c = [i for i in p.items if i['path'].rsplit('::', 1)[-1] == m and re.search(r'\b' + ty + r'\b', i['impl'] or '')]
        if not c: ck.viol('unchecked construction is unsafe', f'{ty}::{m}', 'not found'); continue
        for i in c:
            if i['unsafe']: ck.ok('unchecked construction is unsafe', i['path'])
            elif i['exported']: ck.viol('unchecked construction is unsafe', i['path'], 'can be called from safe code')

def strip(t): return re.sub(r"'\w+ ?|<.*>", '', t)
def local(t, p):
    """a mutable reference through which the contents of a value can be changed (not one to a caller's own argument)"""
    return True
