"""Proof units on the Python sources, as jobs."""

import json
import os
import subprocess
import time

from prove import Result, VERIF

PYTHON = 'python3-vt'


class PyJob:
    def __init__(self, unit, funcs, case=None, cost=3):
        self.unit = unit
        self.case = case
        self.name = unit if case is None else '%s:%s' % (unit, case)
        self.entry = unit if case is None else '%s_%s' % (unit, case)
        self.funcs = funcs
        self.timeout = 400
        self.cost = cost

    def run(self):
        r = Result(self)
        t0 = time.time()
        cmd = [PYTHON, os.path.join(VERIF, 'lib', 'pyprove.py'), self.entry]
        r.cmd = '%s lib/pyprove.py %s (z3)' % (PYTHON, self.entry)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                               timeout=self.timeout)
            out = json.loads(p.stdout.decode())
        except subprocess.TimeoutExpired:
            r.status, r.reason = 'undecided', 'prover ran out of time'
            return r
        except (OSError, ValueError) as e:
            r.status, r.reason = 'undecided', 'prover: %s' % e
            return r
        r.status = out['status']
        r.reason = out['reason']
        r.obligations = out.get('obligations', 0)
        r.discharged = out.get('discharged', 0)
        r.covers = len(out.get('covers', []))
        r.failed = out['failed']
        r.output = json.dumps(out, indent=1)
        r.confirmed = out['confirmed']
        r.wall_s = r.solver_s = time.time() - t0
        return r
