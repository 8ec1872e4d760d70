"""Check runner: obligations, verdicts, evidence and exit status of one property check."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID', os.path.join(ROOT, 'evidence'))
from vals import *
import terms as tm, arith, cmp as C
from ev import Prog, Ev

SELFTEST = bool(os.environ.get('VERIF_SELFTEST'))     # development: search witnesses against proven equalities

class Anchor(Exception):
    """a construct the property is about does not exist (any more)"""

class Res:
    def __init__(self, ev, pc, st, ret):
        self.ev, self.pc, self.st, self.ret = ev, pc, st, ret

class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        # the thorough tier searches longer before it leaves an obligation undecided
        if tier == 'thorough': arith.Steps.scale, Limit.scale, self.deep = 10, 6, 8
        else: self.deep = 1
        # one run answers in good time whatever it meets: what is left by then stays undecided
        Limit.end = self.t0 + (540 if tier == 'quick' else 780)
        self.res = []            # (name, fn, verdict, detail)
        self.fns = {}            # analysed function -> number of evaluations
        self.rules = []
        self.samples = []
        self.known = load_known(pid)
        self.assumptions = []
        self.extra = {}

    # ------------------------------------------------------------- results
    def put(self, name, fn, verdict, detail=''):
        self.res.append((name, fn, verdict, str(detail)))
    def ok(self, name, fn, detail=''): self.put(name, fn, 'ok', detail)
    def viol(self, name, fn, detail): self.put(name, fn, 'violation', detail)
    def unk(self, name, fn, detail): self.put(name, fn, 'undecided', detail)

    def note(self, what):
        """a limit on everything that follows"""
        if not any(d == what for _, _, v, d in self.res if v == 'undecided'): self.unk('scope', '-', what)

    def section(self, name, fn, thunk):
        """run one obligation group; an unsupported construct leaves it undecided"""
        try:
            if time.time() > Limit.end: raise TimeUp()
            with Limit(240):
                thunk()
        except Unsupported as e:
            if isinstance(e, Recursion) and self.pid in ('C04', 'C12', 'C21') and e.unbounded():
                self.viol(name, fn, f'the stack overflows on large data: {e}, at a depth nothing but the data bounds')
            else: self.unk(name, fn, 'outside the analysed fragment: ' + str(e))
        except arith.Budget:
            self.unk(name, fn, 'analysis budget')
        except Anchor as e:
            self.viol(name, fn, 'missing: ' + str(e))
        except (RecursionError, TimeUp, MemoryError) as e:
            if isinstance(e, MemoryError):
                import gc, resource
                # the term tables stay: leave the rest of the check room to finish
                lim = resource.getrlimit(resource.RLIMIT_AS)[0]
                if 0 < lim < (20 << 30): resource.setrlimit(resource.RLIMIT_AS, (lim + (1 << 30), resource.RLIM_INFINITY))
                gc.collect()
            self.unk(name, fn, 'analysis budget: ' + type(e).__name__)
        except Exception as e:
            # an internal limitation of the analysis is not a statement about the code
            self.unk(name, fn, f'internal: {type(e).__name__}: {e}')
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()

    def eq(self, name, fn, got, want, ctx=TRUE, what=''):
        if time.time() > Limit.end: raise TimeUp()
        try:
            with Limit(8): r = C.Cmp().cmp(got, want, ctx)
        except TimeUp:
            # a long comparison: look for a difference first
            d = self.refuted(got, want, ctx)
            if d: self.viol(name, fn, f'{what or name}: {d}'); return 'ne'
            r = C.Cmp().cmp(got, want, ctx)
        if SELFTEST and r[0] == 'eq':
            import ground
            d = ground.witness(got, want, ctx, seed=7, samples=300, gens=self.gens)
            if d: self.viol('SELFTEST ' + name, fn, d)
        if r[0] == 'eq': self.ok(name, fn, what)
        elif r[0] == 'ne': return self.confirm(name, fn, got, want, ctx, f'{what or name}: {r[1]}', r[2] if len(r) > 2 else None)
        else:
            d = self.refuted(got, want, ctx)
            if d:
                self.viol(name, fn, f'{what or name}: {d}'); return 'ne'
            self.unk(name, fn, f'{what or name}: {r[1]}')
        return r[0]

    gens = ()
    prep = None              # establishes the representation invariants in a model of the unknowns
    spent = 0.0
    def confirm(self, name, fn, a, b, ctx, why, hint=None):
        """a difference of the two graphs is reported once a model of the unknowns tells them apart"""
        import ground
        t = time.process_time()
        st = ground.Stats()
        d = None
        try:
            if self.spent < 300 * self.deep:
                with Limit(20): d = ground.witness(a, b, ctx, seed=self.seed, gens=self.gens, prep=self.prep, samples=4000 * self.deep, stats=st, hint=hint)
        except (Unsupported, RecursionError, TimeUp) as e: pass
        if not d and self.spent < 300 * self.deep and isinstance(a, T) and sort_of(a) == 'seq':
            p = C.pointwise(a, b, ctx)
            if p is not None:
                try:
                    with Limit(20): d = ground.witness(*p, seed=self.seed, gens=self.gens, prep=self.prep, samples=4000 * self.deep, stats=st, hint=hint)
                except (Unsupported, RecursionError, TimeUp) as e: pass
                if d: d = 'at one position of the sequences: ' + d
        self.spent += time.process_time() - t
        if d: self.viol(name, fn, f'{why}; {d}'); return 'ne'
        if os.environ.get('VERIF_DEBUG'): print(f'   [unconfirmed] {name} at {fn}: {why[:300]} hits={st.hits} same={st.same} skips={st.skips}')
        self.unk(name, fn, f'(unconfirmed difference) {why}')
        return 'unk'
    def refuted(self, a, b, ctx):
        import ground
        try:
            with Limit(30): return ground.witness(a, b, ctx, seed=self.seed, gens=self.gens, prep=self.prep, samples=1500 * self.deep)
        except (Unsupported, RecursionError, TimeUp): return None

    def holds(self, name, fn, f, assume=TRUE, what=''):
        x = band(assume, bnot(f))
        if x is FALSE: self.ok(name, fn, what); return 'eq'
        w = arith.sat(x, steps=arith.Steps(30000))
        if w is None: self.ok(name, fn, what); return 'eq'
        if all(C.plain(a) for a in batoms(restrict(x, TRUE))):
            return self.confirm(name, fn, G(f), G(TRUE), assume, f'{what or name}: fails when {arith.show_lits(w)[:600]}', C.cube(w))
        d = self.refuted(G(f), G(TRUE), assume)
        if d: self.viol(name, fn, f'{what or name}: {d}'); return 'ne'
        self.unk(name, fn, f'{what or name}: {arith.show_lits(w)[:400]}'); return 'unk'

    def total(self, name, fn, R, assume=TRUE, unless=FALSE):
        """the evaluated operation returns: no panic, overflow or abort on any path, rounds of its loops included"""
        self.holds(f'{name}: always returns', fn, bor_(R.pc, unless), assume)
        groups = {}
        for o in R.ev.obs: groups.setdefault((o.kind, o.fn.split('::')[-1]), {})[bor_(bimp(o.pc, o.ok), unless)] = 1
        for (kind, ofn), fs in groups.items():
            nm = f'{name}: cannot panic ({kind.split(":", 1)[-1]} in {ofn})'
            worst = None
            for f in fs:
                c2 = Quiet(self)
                if c2.holds(nm, fn, f, assume) != 'eq': worst = c2.last; break
            if worst is None: self.ok(nm, fn, f'{len(fs)} sites')
            else: self.put(*worst)

    # ------------------------------------------------------------- finish
    def finish(self):
        viols = []
        seenk = set()
        for n, fn, v, d in self.res:
            if v != 'violation': continue
            key = f'{n}|{fn}'
            k = self.match_known(n, fn)
            if k is not None:
                seenk.add(k['id']); continue
            viols.append((n, fn, d))
        for k in self.known:
            if k['id'] in seenk:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        und = [(n, fn, d) for n, fn, v, d in self.res if v == 'undecided']
        oks = [r for r in self.res if r[2] == 'ok']
        for n, fn, d in und[:40]: print(f'UNDECIDED property={self.pid} {n} [{fn}] {d[:300]}')
        os.makedirs(os.path.join(EVID), exist_ok=True)
        if not self.res:
            viols.append(('no obligation', '-', 'the check found nothing to analyse'))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'static analysis of the compiler-lowered source: ' + ' '.join(self.rules),
                'obligations': len(self.res), 'discharged': len(oks), 'undecided': len(und),
                'functions_analysed': sorted(self.fns),
                'obligation_list': [{'obligation': n, 'at': fn, 'verdict': v, 'detail': d[:300]} for n, fn, v, d in self.res][:400],
                **self.extra,
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(viols),
        }
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
        print(f'{self.pid}: obligations={len(self.res)} discharged={len(oks)} undecided={len(und)} violations={len(viols)} functions={len(self.fns)}')
        if viols:
            path = os.path.join(EVID, f'{self.pid}.violation.txt')
            with open(path, 'w') as f:
                for n, fn, d in viols: f.write(f'{n}\n  at {fn}\n  {d}\n\n')
            for n, fn, d in viols[:20]: print(f'  {n} at {fn}: {d[:600]}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        try: os.remove(os.path.join(EVID, f'{self.pid}.violation.txt'))
        except FileNotFoundError: pass
        return 0

    def match_known(self, n, fn):
        for k in self.known:
            if k.get('status') == 'fixed': continue
            if k['obligation'] == n and k['at'] == fn: return k
        return None

class Quiet:
    """a Check whose result is kept back"""
    def __init__(self, ck): self.ck, self.last = ck, None
    def __getattr__(self, n): return getattr(self.ck, n)
    def put(self, *a): self.last = a
    def ok(self, name, fn, detail=''): self.put(name, fn, 'ok', detail)
    def viol(self, name, fn, detail): self.put(name, fn, 'violation', detail)
    def unk(self, name, fn, detail): self.put(name, fn, 'undecided', detail)
    def eq(self, *a, **k): return Check.eq(self, *a, **k)
    def holds(self, *a, **k): return Check.holds(self, *a, **k)
    def confirm(self, *a): return Check.confirm(self, *a)

def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') != 'fixed']

import signal
class TimeUp(Exception): pass
class Limit:
    """bound the processor time of a block (limits nest); at the deadline of the check, by the clock, every open block is ended"""
    scale = 1
    end = float('inf')
    depth = 0
    armed = False
    def __init__(self, s): self.s = max(1.0, min(s * Limit.scale, Limit.end - time.time()))
    @staticmethod
    def late(*a):
        if Limit.depth > 0: raise TimeUp()
    @staticmethod
    def arm():
        if Limit.armed or Limit.end == float('inf'): return
        Limit.armed = True
        signal.signal(signal.SIGALRM, Limit.late)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, Limit.end - time.time()), 2.0)
    def __enter__(self):
        def h(*a): raise TimeUp()
        Limit.arm()
        self.t = time.process_time()
        self.outer = signal.setitimer(signal.ITIMER_PROF, 0)[0]
        self.old = signal.signal(signal.SIGPROF, h)
        signal.setitimer(signal.ITIMER_PROF, min(self.s, self.outer) if self.outer else self.s)
        Limit.depth += 1
    def __exit__(self, *a):
        Limit.depth -= 1
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        if self.outer: signal.setitimer(signal.ITIMER_PROF, max(0.2, self.outer - (time.process_time() - self.t)))

# ------------------------------------------------------------------ evaluation helpers
class World:
    """the extracted program of both crates"""
    def __init__(self, files):
        self.core = Prog([files[0]])
        self.capi = Prog([files[1]]) if len(files) > 1 else None

    def body(self, prog, key):
        b = prog.bodies.get(key)
        if b is None: raise Anchor(key)
        return b

    def run(self, ck, key, args, st=None, contracts=(), prog=None, pc=TRUE, count=True):
        prog = prog or self.core
        b = self.body(prog, key)
        ev = Ev(prog, contracts)
        if len(args) != b['argc']: raise Anchor(f'{key}: {b["argc"]} parameters, expected {len(args)}')
        ck.fns[key] = ck.fns.get(key, 0) + 1
        pc2, st2, ret = ev.run(b, args, dict(st or {}), pc)
        for k in ev.visited: ck.fns.setdefault(k, 1)
        return Res(ev, pc2, st2, ret)

    def typed(self, name, ty, contracts=(), prog=None):
        return Ev(prog or self.core, contracts).typed(name, (), ty)
