#!/usr/bin/env python3-vt
"""replay.py FILE: rebuild the harness named in a replay file and run it on the recorded input."""
import os, sys, re, tempfile, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gvc'))
import driver
t = open(sys.argv[1]).read()
m = re.search(r'harness specs/(\S+) entry (\S+) cases (\{.*?\}) defs(.*)', t)
work = tempfile.mkdtemp(prefix='vs-replay-')
try:
    driver.gen_headers(work)
    defs = [d for d in m.group(4).split() if not d.startswith('sim:')]
    sim = [d[4:] for d in m.group(4).split() if d.startswith('sim:')]
    if sim:
        exe = driver.build_simexe(work, driver.build_sim(work, sim[0]), m.group(1), tuple(defs))
    else:
        exe = driver.build_native(work, m.group(1), tuple(defs))
    cmd = [exe, '--entry', m.group(2), '--replay', os.path.abspath(sys.argv[1])]
    for k, v in json.loads(m.group(3)).items():
        cmd += ['--case', '%s=%d' % (k, v)]
    r = driver.sh(cmd, timeout=100)
    print(r.stdout)
    rc = r.returncode
finally:
    shutil.rmtree(work)
sys.exit(rc)
