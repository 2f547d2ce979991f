#!/usr/bin/env python3
"""Writes lib/names.json: the names of types, members and functions the rules were written for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import facts, names
out = {}
for c in facts.CONFIGS:
    path, _ = facts.extract(c)
    out[c] = names.summary(json.load(open(path)))
json.dump(out, open(names.FILE, 'w'), sort_keys=True, separators=(',', ':'))
print(os.path.getsize(names.FILE))
