#!/usr/bin/env python3
"""Offline set-up: the tools are there, the harnesses compile (this also fills
Go's build cache, which makes the checks themselves faster)."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import vlib
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/go1.27.3/bin/go'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
subprocess.run(['quint', '--version'], check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
r = subprocess.run(['go', 'build', './...'], cwd=vlib.REPO, env=vlib.go_env())
print('go build ./... rc %d' % r.returncode)
