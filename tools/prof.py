"""profile one harness: python tools/prof.py P01 batches '{"kind":"int","sizes":[4,3]}' [secs]"""
import sys, json, time, collections
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
import dataprofiler
from vp import engine as E, patches, run, ctx
import random, traceback
mod = run.load_property(sys.argv[1])
h = [h for h in mod.HARNESSES if h.name == sys.argv[2]][0]
params = json.loads(sys.argv[3])
patches.install()
orig = E.Engine.raw_check
slow = collections.defaultdict(lambda: [0, 0.0, collections.Counter()])
def rc(self, extra, timeout=None, want_model=True):
    t = time.time(); r = orig(self, extra, timeout, want_model)
    d = time.time() - t
    fr = [f for f in traceback.extract_stack()[:-1] if 'vp/engine' not in f.filename and 'vp/ctx' not in f.filename and 'patches' not in f.filename]
    f = fr[-1]; k = f.filename.split('/')[-1] + ':' + str(f.lineno) + ' ' + (f.line or '')[:60]
    s = slow[k]; s[0] += 1; s[1] += d; s[2][r[0]] += 1
    return r
E.Engine.raw_check = rc
import signal
signal.signal(signal.SIGALRM, run._on_alarm)
t = time.time()
r = run.explore(h, params, [[]], float(sys.argv[4]) if len(sys.argv) > 4 else 20, 10, random.Random(1))
print('paths', r['paths'], 'aborted', r['aborted'], 'errors', r['errors'][:3], 'notes', r['notes'], 'chk', r['checks'], r['discharged'], 'unk', r['unknown'], 'wall', round(time.time() - t, 1), 'pending', len(r['pending']), 'concretized', r['concretized'])
for f in r['failures'][:5]: print('FAIL', f[0], f[1][:1])
for k, v in sorted(slow.items(), key=lambda kv: -kv[1][1])[:14]:
    print('%6d %7.2fs %s %s' % (v[0], v[1], dict(v[2]), k))
