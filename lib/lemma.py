"""Lemmas over the integers, each the negation of a formula that two SMT
solvers have to refute."""

import os
import subprocess
import time

from prove import Result, VERIF

SOLVERS = [['z3'], ['cvc5', '--incremental', '--quiet']]


class Lemma:
    def __init__(self, unit, src, cost=1):
        self.unit = unit
        self.name = unit
        self.src = src
        self.funcs = []
        self.timeout = 100
        self.cost = cost

    def run(self):
        r = Result(self)
        t0 = time.time()
        path = os.path.join(VERIF, 'lemmas', self.src)
        r.obligations = sum(l.startswith('(check-sat)') for l in open(path))
        r.status = 'proved'
        done = r.obligations
        for solver in SOLVERS:
            try:
                p = subprocess.run(solver + [path], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=self.timeout)
                out = p.stdout.decode().split()
            except (OSError, subprocess.TimeoutExpired):
                out = []
            done = min(done, out.count('unsat'))
            if out != ['unsat'] * r.obligations:
                r.status = 'undecided'
                r.reason = '%s does not refute every negated lemma' % solver[0]
        r.discharged = done
        r.cmd = ' and '.join(' '.join(s) for s in SOLVERS) + ' on lemmas/' + self.src
        r.wall_s = r.solver_s = time.time() - t0
        return r
