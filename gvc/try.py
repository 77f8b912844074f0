#!/usr/bin/env python3-vt
"""development aid: try.py src entry case=val... """
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, importlib.util
src, entry = sys.argv[1:3]
cases = {}
opts = {}
for a in sys.argv[3:]:
    k, v = a.split('=')
    if k in ('budget', 'timeout', 'range', 'unroll'):
        opts[k] = int(v) if v.isdigit() else v
    else:
        cases[k] = int(v)
w = os.environ.get('W', '/tmp/w/try')
os.makedirs(w, exist_ok=True)
driver.gen_headers(w)
sys.path.insert(0, os.path.join(driver.VERIF, 'specs'))
us = []
try:
    import units
    us = [u for u in units.UNITS if u['src'] == src and u['entry'] == entry]
except ImportError:
    pass
u = us[0] if us else {}
o = dict(u.get('opts', {}))
o['invs'] = u.get('invs', [])
o.update(opts)
t = time.time()
b = driver.build_gvc(w, src, entry, u.get('defs', ()))
print('build %.1f' % (time.time() - t))
r = driver.gvc_job(b, entry, cases, o, entry)
st = {}
for x in r['obl']:
    st[x['status']] = st.get(x['status'], 0) + 1
    if x['status'] != 'proved':
        print(x['status'], x['kind'], x['label'], '@', x['where'])
        if os.environ.get('V'):
            print('   goal', x['goal'][:1500]); print('   model', x.get('model'))
print(st, 'undecided:', r['undecided'])
print({k: r.get(k) for k in ('time', 'solver_time', 'queries', 'backends', 'lost', 'invs', 'assumed', 'funcs')})
