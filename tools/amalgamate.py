#!/usr/bin/env python3
"""Expand include/hsm/hsm.h into one header, the way quom does (see
.github/workflows/disabled-workflows/quom.yml): every project header is pasted at
its first inclusion, its include guard is dropped.
Usage: amalgamate.py INCLUDE_DIR > hsm.h   (a convenience; no check depends on it)
"""
import os, re, sys
root = sys.argv[1]
seen, out = set(), []
def expand(path, top=False, stack=()):
    real = os.path.realpath(path)
    if real in seen:
        return
    seen.add(real)
    for line in open(path).read().split('\n'):
        m = re.match(r'\s*#\s*include\s+"(.*)"', line)
        if m:
            cand = os.path.join(root, m.group(1))
            if not os.path.exists(cand):
                cand = os.path.join(os.path.dirname(path), m.group(1))
            expand(cand)
            continue
        if re.match(r'\s*#\s*pragma\s+once', line) and not top:
            continue
        out.append(line)
expand(os.path.join(root, 'hsm/hsm.h'), top=True)
text = '\n'.join(out)
text = re.sub(r'\n{3,}', '\n\n', text).strip('\n') + '\n'
sys.stdout.write(text)
