#!/usr/bin/env python3
"""rep.py REPLAY [N] : print the replay's class, message and source"""
import json,sys
d=json.load(open(sys.argv[1])); print('##',d['class']); print(d['message'][:1500])
s=d.get('source') or (d.get('input') or {}).get('source') or ''
print(s[:int(sys.argv[2]) if len(sys.argv)>2 else 1500])
