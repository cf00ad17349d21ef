#!/usr/bin/env python3
"""Builds the harness and makes sure the specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hb
hb.build()
for m in sorted(f for f in os.listdir(hb.SPEC) if f.endswith(".tla")):
    p = subprocess.run(["tla-sany", m], cwd=hb.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout[-2000:])
        sys.exit(1)
print("ready")
