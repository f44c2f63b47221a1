"""Front end driver: parses every source file of the analysed tree and loads the typed program."""
import json
import os
import subprocess
import sys
import tempfile
import time
from . import names

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'eskf_vio_backend', 'src')
INC = os.path.join(REPO, 'eskf_vio_backend', 'include')
RES = '/usr/lib/llvm-18/lib/clang/18'


class AnalysisError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(SRC):
        out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
    return sorted(out)


def incs():
    ds = [d for d, _, _ in os.walk(INC)]
    return ['-I' + d for d in sorted(ds)]


def _run(src):
    fe = os.path.join(HERE, 'front', 'bin', 'vfront')
    p = subprocess.Popen([fe, src, REPO.rstrip('/') + '/', '--', '-std=c++17', '-I/usr/include/eigen3'] + incs() + ['-resource-dir', RES],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p


class Program:
    def __init__(self, units):
        self.fns, self.recs, self.vars, self.enums = {}, {}, {}, {}
        for u in units:
            for f in u['functions']:
                self.fns.setdefault(f['key'], f)
            for r in u['records']:
                self.recs.setdefault(r['name'], r)
            for v in u['vars']:
                if v['id'] not in self.vars or ('init' in v and 'init' not in self.vars[v['id']]):
                    self.vars[v['id']] = v
            self.enums.update(u['enums'])
        self.index()

    def index(self):
        self.byname = {}
        for k, f in self.fns.items():
            self.byname.setdefault(f['fn'], []).append(f)
        # records whose copies or ends run code of the program
        self.copies = {f['rec'] for f in self.fns.values() if f.get('ctor') and f.get('rec') and len(f['params']) == 1
                       and f['params'][0]['t'].endswith('R:' + f['rec']) and f['params'][0]['t'].startswith('&')}
        self.dtors = {f['rec'] for f in self.fns.values() if f.get('dtor') and (f.get('body') or {}).get('b')}

    def find(self, qual, nparams=None, must=True):
        """a function of the namespace by qualified name (without the namespace prefix)"""
        c = self.byname.get('ESKF_VIO_BACKEND::' + qual, []) or self.byname.get(qual, [])
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if not c:
            if must:
                raise AnalysisError('entry point %s not found in the program' % qual)
            return None
        return c[0]

    def rec(self, name):
        r = self.recs.get('ESKF_VIO_BACKEND::' + name) or self.recs.get(name)
        if r is None:
            raise AnalysisError('record %s not found in the program' % name)
        return r


def load(canon=True):
    subprocess.run(['bash', os.path.join(HERE, 'front', 'build.sh')], check=True, stdout=sys.stderr)
    srcs = sources()
    if len(srcs) < 10:
        raise AnalysisError('only %d source files found under %s' % (len(srcs), SRC))
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='vfront') as td:
        u = os.path.join(td, 'unity.cpp')
        with open(u, 'w') as f:
            f.write(''.join('#include "%s"\n' % s for s in srcs))
        p = _run(u)
        out, err = p.communicate()
        units = None
        if p.returncode == 0 and out:
            try:
                units = [json.loads(out)]
            except ValueError:
                units = None
    if units is None:
        units = []
        ps = [(s, _run(s)) for s in srcs]
        bad = []
        for s, p in ps:
            out, err = p.communicate()
            if p.returncode != 0 or not out:
                bad.append((s, err.decode(errors='replace')[-2000:]))
            else:
                units.append(json.loads(out))
        if bad:
            raise AnalysisError('cannot parse %s:\n%s' % bad[0])
    prog = Program(units)
    prog.renamed = names.canon(prog) if canon else []
    prog.index()
    prog.srcs = srcs
    prog.parse_time = time.time() - t0
    if len(prog.fns) < 60:
        raise AnalysisError('only %d functions parsed' % len(prog.fns))
    return prog
