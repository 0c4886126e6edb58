#!/usr/bin/env python3
"""Rebuilds the harness natively and replays a recorded counterexample: replay.py FILE"""
import sys, os, re, json, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
t = open(sys.argv[1]).read()
m = re.match(r'property (\S+) harness (\S+) params (.*)\n', t); pid, src, params = m.group(1), m.group(2), json.loads(m.group(3))
h = [x for x in props.PROPS[pid]['harnesses'] if x['src'] == src][0]
jf = re.search(r'^jitter (\S+) fill (\S+)$', t, re.M); jit, fill = [None if x == 'None' else int(x) for x in jf.groups()]
vals = [l.rsplit(' ', 1) for l in t.split('values:\n', 1)[1].split('\n\n', 1)[0].splitlines() if ' ' in l]
dl = time.time() + 800
srcs = [check.V + '/harness/' + src] + [check.V + '/rt/' + s for s in h.get('rt', [])] + check.sources(h)
objs = [check.compile1(s, h.get('defs', []), 'nat', dl) for s in srcs] + [check.compile1(check.V + '/rt/native.cpp', [], 'nat', dl)]
w = tempfile.mkdtemp()
check.sh(['clang++', '-fsanitize=address', '-o', w + '/x'] + objs + h.get('ldflags', []))
rc, o, env = check.native(w + '/x', params, vals, w, jit, fill, 60)
print(o[-6000:]); print('exit', rc); shutil.rmtree(w)
sys.exit(1 if check.bad(rc) else 0)
