#!/usr/bin/env python3
"""mkbug.py SPEC.py  — SPEC defines id, prop, pkg, dir, edits=[(file, old, new)], demo, needs, breaks"""
import sys, os, json, difflib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, pkg, dir, edits, demo, needs, breaks):
    O = f'{V}/seeded/{id}'; os.makedirs(O, exist_ok=True)
    orig, new = {}, {}
    for f, a, b in edits:
        s = new.get(f) or open('/repo/' + f).read(); orig.setdefault(f, s)
        assert s.count(a) == 1, (id, f, s.count(a), a); new[f] = s.replace(a, b)
    d = ''
    for f in new:
        d += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(orig[f].splitlines(True), new[f].splitlines(True), 'a/' + f, 'b/' + f))
    open(O + '/patch.diff', 'w').write(d); open(O + '/demo.rs', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(O + '/meta.json', 'w'), indent=1)
    subprocess.run([sys.executable, V + '/tools/mkdemo.py', id, pkg, dir], check=True); print('made', id)
if __name__ == '__main__':
    g = {'make': make}; exec(open(sys.argv[1]).read(), g)
