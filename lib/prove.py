"""Runs proof units: goto-cc, goto-instrument (code contracts), cbmc.

A unit is a C file under /verif/units that includes the current source of
/repo, states the contract of one function, and calls it once from an
arbitrary state allowed by the precondition. Every obligation cbmc
generates has to be discharged."""

import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

NONE_ONLY = ['-DDETOOLS_CONFIG_FILE_IO=0',
             '-DDETOOLS_CONFIG_COMPRESSION_LZMA=0',
             '-DDETOOLS_CONFIG_COMPRESSION_HEATSHRINK=0',
             '-DDETOOLS_CONFIG_COMPRESSION_CRLE=0']
NO_FILE = ['-DDETOOLS_CONFIG_FILE_IO=0']


class Job:
    """One run of the prover: a unit, possibly one case of it."""

    def __init__(self, unit, case, src, enforce, replace=(), loops=False,
                 defs=(), unwind=8, unwindset=(), covers=True, funcs=(),
                 needs=(), args=(), timeout=400, cost=10, object_bits=12,
                 calls=(), macros=(), before=(), part=None, recursive=False):
        self.unit = unit
        self.case = case
        self.src = src
        self.enforce = enforce
        self.replace = list(replace)
        self.loops = loops
        self.defs = list(defs)
        self.unwind = unwind
        self.unwindset = dict(unwindset)
        self.covers = covers
        self.funcs = list(funcs)
        self.needs = list(needs)
        self.args = list(args)
        self.timeout = timeout
        self.cost = cost
        self.object_bits = object_bits
        self.calls = list(calls)
        self.macros = list(macros)
        self.before = list(before)
        self.part = part
        self.recursive = recursive
        # Without the generic checks (pointers, overflow, division), which
        # C03 decides for the same unit.
        self.light = False

    @property
    def name(self):
        return self.unit + (':' + str(self.case) if self.case is not None else '')


class Result:
    def __init__(self, job):
        self.name = job.name
        self.unit = job.unit
        self.funcs = job.funcs
        self.status = 'undecided'  # proved, failed, undecided
        self.reason = ''
        self.obligations = 0
        self.discharged = 0
        self.failed = []
        self.covers = 0
        self.vacuous = []
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.cmd = ''
        self.output = ''
        self.trace = ''
        self.confirmed = ''      # failing input run against the real code


LINE = re.compile(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


class Stop:
    """Ends all provers once one obligation has failed."""

    def __init__(self):
        self.lock = threading.Lock()
        self.procs = set()
        self.stopped = False

    def stop(self):
        with self.lock:
            self.stopped = True
            for p in self.procs:
                p.kill()


STOP = Stop()
LIVE = threading.local()


def run(cmd, cwd, timeout):
    with STOP.lock:
        if STOP.stopped and not getattr(LIVE, 'keep', False):
            return None, ''
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT)
        if not getattr(LIVE, 'keep', False):
            STOP.procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
        if rc is not None and rc < 0:
            rc = None
        return rc, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, (out or b'').decode('utf-8', 'replace')
    finally:
        with STOP.lock:
            STOP.procs.discard(p)


def includes():
    return ['-I.',
            '-I' + os.path.join(REPO, 'c'),
            '-I' + os.path.join(REPO, 'c', 'heatshrink'),
            '-I' + os.path.join(REPO, 'detools'),
            '-I' + os.path.join(VERIF, 'include')]


def build(job, cwd, covers, timeout):
    src = os.path.join(VERIF, 'units', job.src)
    text = open(src).read()

    if REPO != '/repo':
        text = text.replace('"/repo/', '"' + REPO + '/')

    if job.macros or job.before:
        # A macro of the source stands for a stub from its definition on; the
        # definition itself has a unit of its own. Nothing else is changed.
        path = os.path.join(REPO, 'c', 'detools.c')
        source = open(path).read()
        for name, params, body in job.macros:
            m = re.search(r'^#define %s\(.*(?:\\\n.*)*\n' % name, source, re.M)
            if not m:
                return 'macro %s is no longer defined' % name
            source = (source[:m.end()] + '#undef %s\n#define %s(%s) %s\n#line %d\n' % (
                name, name, params, body, source[:m.end()].count('\n') + 1)
                + source[m.end():])
        for pattern, line in job.before:
            # Preprocessor lines in front of a function definition.
            m = re.search(pattern, source, re.M)
            if not m:
                return '%s is no longer defined' % pattern
            source = (source[:m.start()] + line + '\n' + source[m.start():])
        with open(os.path.join(cwd, 'detools_macros.c'), 'w') as f:
            f.write('#line 1 "%s"\n' % path + source)
        text = text.replace('"%s"' % path, '"detools_macros.c"')

    unit = os.path.join(cwd, 'unit.c')
    with open(unit, 'w') as f:
        f.write('#line 1 "%s"\n' % src)
        f.write(text)

    defs = ['-DDETOOLS_VERIFY'] + job.defs
    if covers:
        defs.append('-DVG_COVERS')

    rc, out = run(['goto-cc'] + defs + includes()
                  + ['-I' + os.path.join(VERIF, 'units'),
                     '--function', 'harness', unit, '-o', 'a.gb'], cwd, timeout)
    if rc != 0:
        return 'does not compile under contract: ' + tail(out)

    for old, new in job.calls:
        # Stubs with ghost code, bound to the function by a unit of their own.
        rc, out = run(['goto-instrument', '--replace-calls', '%s:%s' % (old, new),
                       'a.gb', 'a.gb'], cwd, timeout)
        if rc != 0:
            return 'calls not replaceable: ' + tail(out)

    if not job.loops and not job.replace and not job.enforce:
        # The harness assumes the precondition itself; nothing to replace.
        shutil.copy(os.path.join(cwd, 'a.gb'), os.path.join(cwd, 'b.gb'))
        return None

    cmd = ['goto-instrument', '--dfcc', 'harness']
    if job.enforce:
        cmd += ['--enforce-contract-rec' if job.recursive else '--enforce-contract', job.enforce]
    for name in job.replace:
        cmd += ['--replace-call-with-contract', name]
    if job.loops:
        cmd += ['--apply-loop-contracts']
    rc, out = run(cmd + ['a.gb', 'b.gb'], cwd, timeout)
    if rc != 0:
        return 'contracts not applicable: ' + tail(out)

    return None


def tail(out, n=6):
    return ' | '.join(out.strip().splitlines()[-n:])[-800:]


LIGHT = {False: [], True: ['--no-standard-checks']}


def cbmc_cmd(job, unwindset, extra=()):
    cmd = ['cbmc', 'b.gb'] + LIGHT[job.light] + ['--unwind', str(job.unwind),
           '--object-bits', str(job.object_bits), '--unwinding-assertions',
           '--slice-formula', '--verbosity', '8']
    if unwindset:
        cmd += ['--unwindset',
                ','.join('%s:%d' % x for x in sorted(unwindset.items()))]
    return cmd + job.args + list(extra)


def parse(out):
    res = []
    for line in out.splitlines():
        m = LINE.match(line)
        if m:
            res.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    return res


TOOL_LIMIT = ('undefined function should be unreachable',
              'recursion unwinding assertion')


def is_unwind(name, text):
    return '.unwind.' in name or 'unwinding assertion' in text


def prove(job):
    """Run one job to the end. Never raises."""
    r = Result(job)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vg-')
    try:
        _prove(job, r, d)
    except Exception as e:  # an error of the machinery decides nothing
        r.status = 'undecided'
        r.reason = 'machinery: %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
    LIVE.keep = False
    r.wall_s = time.time() - t0
    return r


def _prove(job, r, d):
    deadline = time.time() + job.timeout

    src = open(os.path.join(REPO, 'c', 'detools.c')).read() if job.needs else ''
    for need in job.needs:
        if not re.search(r'DETOOLS_LOOP_CONTRACT\(\s*%s\b' % re.escape(need), src) \
           and not any(re.search(r'DETOOLS_LOOP_CONTRACT\(\s*%s\b' % re.escape(need),
                                 open(os.path.join(REPO, p)).read())
                       for p in ('c/heatshrink/heatshrink_decoder.c', 'detools/bsdiff.c')):
            r.reason = 'loop contract %s is no longer attached to a loop' % need
            return

    def left():
        return max(1.0, deadline - time.time())

    err = build(job, d, job.covers, left())
    if err:
        r.reason = err
        return

    unwindset = dict(job.unwindset)
    rc, out = run(['cbmc', 'b.gb', '--show-loops'], d, left())
    loops = set(re.findall(r'^Loop ([^:\s]+):', out, re.M))
    unwindset = {k: v for k, v in unwindset.items() if k in loops}

    only = []
    if job.part:
        # This job decides every n-th obligation of the unit.
        i, n = job.part
        rc, out = run(['cbmc', 'b.gb'] + LIGHT[job.light] + ['--show-properties'], d, left())
        names = sorted(re.findall(r'^Property (\S+):$', out, re.M))
        if not names:
            r.reason = 'prover error: ' + tail(out)
            return
        for name in names[i::n]:
            only += ['--property', name]

    for attempt in range(6):
        cmd = cbmc_cmd(job, unwindset, only)
        r.cmd = ' '.join(cbmc_cmd(job, unwindset)) + (
            ' (obligations %d modulo %d)' % job.part if job.part else '')
        rc, out = run(cmd, d, left())
        r.output = out
        r.solver_s += sum(float(x) for x in re.findall(r'Runtime Solver: ([\d.e-]+)s', out))
        if rc is None:
            r.reason = ('ended, as another unit has failed' if STOP.stopped
                        else 'prover ran out of time')
            return
        props = parse(out)
        if 'VERIFICATION SUCCESSFUL' not in out and 'VERIFICATION FAILED' not in out:
            r.reason = 'prover error: ' + tail(out)
            return
        covers = [p for p in props if 'COVER ' in p[2]]
        props = [p for p in props if 'COVER ' not in p[2]]
        failed = [p for p in props if p[3] != 'SUCCESS']
        unw = [p for p in failed if is_unwind(p[0], p[2])]
        if not unw:
            break
        grown = False
        for p in unw:
            m = re.search(r'unwinding assertion loop (\d+)', p[2])
            f = p[0].split('.unwind.')[0]
            if not m:
                continue
            key = '%s.%s' % (f, m.group(1))
            old = unwindset.get(key, job.unwind)
            new = 34 if old < 34 else 135 if old < 135 else 262 if old < 262 else 0
            if new:
                unwindset[key] = new
                grown = True
        if not grown:
            r.reason = 'loop without contract that no bound unwinds: ' + unw[0][0]
            r.obligations = len(props)
            r.discharged = len(props) - len(failed)
            return
    else:
        r.reason = 'loops keep needing more unwinding'
        return

    # The instrumentation library's own checks are required to hold, but
    # not counted.
    own = [p for p in props if not p[0].startswith('__CPROVER_')]
    r.obligations = len(own)
    r.discharged = len([p for p in own if p[3] == 'SUCCESS'])

    if r.obligations == 0:
        r.reason = 'no obligation generated'
        return

    if failed:
        limits = [p for p in failed if any(t in p[2] for t in TOOL_LIMIT)]
        if limits:
            r.reason = 'outside the reach of the contracts: ' + limits[0][0] + ' ' + limits[0][2]
            return
        r.status = 'failed'
        r.failed = ['%s%s: %s' % (p[0], ' line ' + p[1] if p[1] else '', p[2])
                    for p in failed]
        LIVE.keep = True
        STOP.stop()
        rc, out = run(cbmc_cmd(job, unwindset,
                               ['--property', failed[0][0], '--trace']),
                      d, min(90.0, left()))
        r.trace = out if rc is not None else ''
        return

    r.status = 'proved'

    if job.covers:
        # Assertions behind the preconditions that have to fail.
        r.covers = len([p for p in covers if p[3] == 'FAILURE'])
        r.vacuous = [p[2] for p in covers if p[3] != 'FAILURE']
        if r.vacuous or not (covers or job.part):
            r.status = 'undecided'
            r.reason = 'vacuous: not reachable: ' + '; '.join(r.vacuous)
