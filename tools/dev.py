"""development driver: run N specs of a property in this process"""
import sys, os, time, random, json, collections, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.setup_env('/tmp/w/scr'); os.chdir('/tmp/w/scr')
boot.import_package()
from sim import props, world
pid, n = sys.argv[1], int(sys.argv[2])
meths = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] else None
off = int(sys.argv[4]) if len(sys.argv) > 4 else 0
P = props.PROPS[pid]
real = os.fdopen(os.dup(1), 'w'); dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1)
T = collections.defaultdict(float); W = collections.defaultdict(float); N = collections.Counter(); NT = collections.Counter(); F = collections.Counter()
bad = 0
for i in range(off, off + n):
    ms = meths or P.METHODS
    m = ms[i % len(ms)]
    seed = int.from_bytes(hashlib.sha256(("1:%s:%d" % (pid, i)).encode()).digest()[:8], 'big')
    sp = P.gen(i, random.Random(seed), m, 'quick')
    t = time.time()
    try:
        d = P.run(sp)
        W[m] = max(W[m], d.get('worst', 0)); NT[m] += d['nontrivial']
        for k, v in d['fired'].items(): F[k] += v
    except world.Violation as e:
        bad += 1
        print('VIOL', i, m, e, file=real)
        if bad < 4: print(json.dumps(sp), file=real)
    except BaseException as e:
        bad += 1
        print('ERR', i, m, repr(e)[:300], file=real)
        if bad < 4: traceback.print_exc(file=real); print(json.dumps(sp), file=real)
    T[m] += time.time() - t; N[m] += 1
    real.flush()
for m in N: print('%-14s n=%d nontriv=%d %.2fs/run worst=%.3g' % (m, N[m], NT[m], T[m] / N[m], W[m]), file=real)
print('bad', bad, dict(F), file=real)
