#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against /repo's current code, compiled natively. Exit 1 = violated."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb
meta = {}
for l in open(sys.argv[1]):
    if l.startswith('# ') and len(l.split()) > 1:
        meta.setdefault(l.split()[1], l.split()[2:])
libs = [x for x in meta['libs'][0].split(',') if x] if meta.get('libs') else []
with vb.Lock():
    exe = vb.native_exe(vb.harness_bc(meta['harness'][0]), list(vb.lib_bcs(libs).values()))
p = subprocess.run([exe, sys.argv[1]] + meta.get('args', []))
sys.exit(p.returncode)
