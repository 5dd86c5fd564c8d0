#!/usr/bin/env python3
"""edit.py FILE OLD NEW : replace one occurrence, keeping line endings"""
import sys
p, a, b = sys.argv[1:4]
t = open(p, newline='').read()
if '\r\n' in t and '\r\n' not in a: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
if t.count(a) != 1: sys.exit('%d occurrences' % t.count(a))
open(p, 'w', newline='').write(t.replace(a, b))
