#!/usr/bin/env python3
"""Compares the interpreter with the compiled program on concrete inputs (test of the machinery, no check).
python3-vt run.py [names] [-s FILE]   default file cases.cpp"""
import json, os, re, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(H)))
sys.setrecursionlimit(20000)
from sa import ir
from sa.core import Check
from sa.term import T
from sa import term as tm
import numpy as np
src = os.path.join(H, 'cases.cpp')
only = sys.argv[1:]
names = [n for n in re.findall(r'^double ((?:t|e)_\w+)\(\)', open(src).read(), re.M) if not only or n in only]
with tempfile.TemporaryDirectory() as d:
    m = open(src).read() + '\n#include <cstdio>\nint main() {\n' + ''.join('std::printf("%s %%.17g\\n", T::%s());\n' % (n, n) for n in names) + '}\n'
    open(d + '/m.cpp', 'w').write(m)
    r = subprocess.run(['g++', '-std=c++17', '-O0', '-I/usr/include/eigen3', d + '/m.cpp', '-o', d + '/m'], capture_output=True, text=True)
    if r.returncode:
        sys.exit(r.stderr[:3000])
    want = dict(l.split() for l in subprocess.run([d + '/m'], capture_output=True, text=True).stdout.splitlines())
    fe = os.path.join(os.path.dirname(os.path.dirname(H)), 'front', 'bin', 'vfront')
    p = subprocess.run([fe, src, H + '/', '--', '-std=c++17', '-I/usr/include/eigen3', '-resource-dir', ir.RES], capture_output=True)
    prog = ir.Program([json.loads(p.stdout)])
bad = und = 0
for n in names:
    ck = Check('T', prog, 1, 'quick')
    w = ck.world(n, n=2, seeds=1)
    try:
        exs = w.run(prog.byname['T::' + n][0], None, [])
    except Exception as x:
        if os.environ.get('VERIF_TRACE'):
            raise
        print(n, 'ENGINE', type(x).__name__, str(x)[:200]); und += 1
        continue
    if not exs or exs[0].st.taint:
        print(n, 'undecided', exs[0].st.taint if exs else ('no exit', w.eng.ubs, dict(ck.und))); und += 1
        continue
    v = exs[0].ret
    v = w.val(v, exs[0].st)
    if isinstance(v, T) and v.opq:
        print(n, 'undecided', 'unmodelled value'); und += 1
        continue
    if isinstance(v, T):  # composed of constants only
        v = float(tm.Valuation(2)(v)[0])
    g = float(want[n])
    if len(exs) != 1 or not (isinstance(v, (int, float)) and (abs(v - g) <= 1e-6 * max(1, abs(g)) or v == g)):
        print(n, 'WRONG', len(exs), v, g); bad += 1
print('%d cases, %d undecided, %d wrong' % (len(names), und, bad))
sys.exit(bad > 0)
