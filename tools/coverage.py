#!/usr/bin/env python3
"""lists the functions of /repo that no contract names"""
import os, re
spec = {}
for root, _, files in os.walk('/verif/spec'):
    for f in files:
        if f.endswith('.go'):
            pkg = os.path.relpath(root, '/verif/spec')
            for m in re.finditer(r'^//@ (?:contract|iface|model|bind) (.*)$', open(os.path.join(root, f)).read(), re.M):
                spec.setdefault(pkg, set()).add(m.group(1).split()[0] if not m.group(1).startswith('(') else m.group(1).strip())
n = t = 0
for root, dirs, files in os.walk('/repo'):
    dirs[:] = [d for d in dirs if d not in ('testdata', '.git')]
    for f in sorted(files):
        if f.endswith('.go') and not f.endswith('_test.go') and 'windows' not in f:
            pkg = os.path.relpath(root, '/repo')
            for m in re.finditer(r'^func (?:\((?:\w+ )?(\*?\w+)\) )?(\w+)\(', open(os.path.join(root, f)).read(), re.M):
                name = m.group(2)
                if m.group(1):
                    r = m.group(1)
                    name = '(%s).%s' % (r, m.group(2))
                t += 1
                if name in spec.get(pkg, ()):
                    n += 1
                else:
                    print(pkg, f, name)
print(n, 'of', t)
