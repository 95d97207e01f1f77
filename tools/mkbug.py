"""creates /verif/seeded/<id>/ from edits: used by hand while planting bugs"""
import json, os, subprocess, tempfile, shutil

SH = '''#!/bin/bash
# exit 0 when the property holds; run with the repository as working directory
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$T" DEMO_TMP="$T"
timeout 250 /opt/venv/bin/python "$HERE/demo.py"
'''
BASE = '''import os, sys, numpy as np, pandas as pd
from numerous.engine.model import Model
from numerous.engine.simulation import Simulation
from numerous.engine.system import Item, Subsystem
from numerous.multiphysics import EquationBase, Equation
TMP = os.environ['DEMO_TMP']


class It(Item, EquationBase):
    def __init__(self, tag='it'):
        super().__init__(tag)
        t1 = self.create_namespace('t1')
        self.add_state('x', 1.0)
        self.add_parameter('p', 2.0)
        self.add_parameter('q', 3.0)
        t1.add_equations([self])

    @Equation()
    def ev(self, scope):
        scope.x_dot = -1.0


class Sys(Subsystem):
    def __init__(self, n=1, tag='sys', **kw):
        super().__init__(tag, **kw)
        self.its = [It('it%d' % i) for i in range(n)]
        self.register_items(self.its)


'''


def bug(bid, prop, edits, needs, breaks, demo, base=True):
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w'])
    try:
        for f, old, new in edits:
            p = t + '/w/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write((BASE if base else '') + demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
