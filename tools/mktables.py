#!/usr/bin/env python3
"""Writes known/tables.json.xz from a `rules tables` dump (done once, on the reviewed tree)."""
import json, lzma, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import C14
T = json.load(open(sys.argv[1]))
ref = {k: C14.canon(T, t["v"]) for k, t in T.items() if not (isinstance(t["v"], dict))}
open(C14.REF, "wb").write(lzma.compress(json.dumps(ref, separators=(",", ":")).encode(), preset=9))
