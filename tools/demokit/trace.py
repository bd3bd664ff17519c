"""trace.py MODEL FILE: plays every <trace> found in FILE on MODEL; exit 1 if one is not a run of the net."""
import re, sys, xml.etree.ElementTree as ET
tag = lambda e: e.tag.split('}')[-1]
m0, pre, post = {}, {}, {}
def num(e, d):
    for x in e.iter():
        if tag(x) == 'text' and x.text and x.text.strip().isdigit(): return int(x.text)
    return d
arcs = []
for e in ET.parse(sys.argv[1]).iter():
    if tag(e) == 'place': m0[e.get('id')] = num(e, 0)
    if tag(e) == 'transition': pre[e.get('id')] = []; post[e.get('id')] = []
    if tag(e) == 'arc': arcs.append((e.get('source'), e.get('target'), e.get('type'), num(e, 1)))
for s, t, k, w in arcs:
    if s in m0: pre[t].append((s, k == 'inhibitor', w))
    else: post[s].append((t, w))
en = lambda m, t: all((m[p] < w) if i else (m[p] >= w) for p, i, w in pre[t])
bad = 0
for tr in re.findall(r'<trace.*?</trace>', open(sys.argv[2]).read(), re.S):
    m = dict(m0)
    for k, i in re.findall(r'<(transition|deadlock|loop)(?:[^>]*?id="([^"]*)")?[^>]*>', tr):
        if k == 'transition':
            if not en(m, i): print('not enabled:', i); bad = 1; break
            for p, inh, w in pre[i]: m[p] -= 0 if inh else w
            for p, w in post[i]: m[p] += w
        elif k == 'deadlock' and any(en(m, t) for t in pre): print('no deadlock at the end of the trace'); bad = 1
sys.exit(bad)
