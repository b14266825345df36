#!/usr/bin/env python3
"""Appends a 'fixed' entry: tools/fixed.py PROPERTY COMMIT 'what failed'"""
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps({"property":p,"status":"fixed","commit":c,"what":f"fixed: property={p} {c} {w}"})+"\n")
