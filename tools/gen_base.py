#!/usr/bin/env python3-vt
"""Writes sa/base.json: the names of the classes, members and functions the specifications use."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import ir, names
p = ir.load(canon=False)
json.dump(names.shape(p), open(names.BASE, 'w'), indent=0, sort_keys=True)
