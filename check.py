#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property of /repo's current source, statically."""
import resource, os, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    import extract, registry, chk
    spec = registry.PROPS[pid]
    try: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError): pass
    ck = chk.Check(pid, 'thorough' if tier == 'thorough' else 'quick', seed)
    tmp = tempfile.mkdtemp(prefix='verif-sa-')
    try:
        W = None
        if spec.get('mir', True):
            try: files = extract.extract(tmp)
            except extract.BuildError as e:
                print(e); print(f'{pid}: /repo does not compile; nothing was decided'); return 2
            except extract.DriverError as e:
                print(e); ck.res.append(('extraction', '-', 'undecided', 'the compiler driver failed on this source')); return ck.finish()
            import stdm
            W = chk.World(files)
        ck.rules.append(spec['rule'])
        ck.assumptions = list(spec.get('assume', []))
        for g in spec['groups']:
            g(ck, W)
        return ck.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
