#!/usr/bin/env python3
"""Checks that the tools are there and that the specifications parse. Nothing is built ahead:
every check compiles what it needs from /repo."""
import shutil, subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from hsmv import tlc
for t in ('clang++', 'g++', 'java'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
for m in ('Hsm', 'HsmMC', 'HsmTrace', 'HsmForm'):
    p = subprocess.run(['java', '-cp', tlc.classpath(), 'tla2sany.SANY', os.path.join(HERE, 'spec', m + '.tla')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(HERE, 'spec'))
    if p.returncode or 'Semantic error' in p.stdout or 'Parse Error' in p.stdout:
        sys.exit(p.stdout)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('ok')
