#!/usr/bin/env python3
"""addfix.py PROP 'commit message part' 'text' : append a fixed: line for the /repo commit whose subject contains the part"""
import subprocess, sys
prop, part, text = sys.argv[1:4]
L = subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
h = [l.split()[0] for l in L if part in l and ' fix:' in l]
assert len(h) == 1, h
open('/verif/known_findings.txt','a').write('fixed: property=%s %s %s\n' % (prop, h[0], text))
