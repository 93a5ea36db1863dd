"""Bounded native exploration of the real code: finds a failing input for
a failed obligation, and stands in (bounded, never counted as proved) for
units the verifier could not decide."""

import os
import re
import shutil
import subprocess
import sysconfig
import tempfile
import time

from prove import REPO, VERIF

SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer']
NAT = os.path.join(VERIF, 'native')

# property: [(program, args, environment)]
SEQ = ('explore', 'seq', {})
IP = ('explore', 'inplace', {})
DUMP = ('explore', 'dump', {})
FILES = ('files', None, {})
TOOL = ('tool', None, {})
CONFIGS = ('configs', None, {})
ERRORS = ('explore', 'errors', {})


def comp(mode, c):
    return ('explore', mode, {'VG_COMP': str(c)})


MODES = {
    'C01': [SEQ, comp('seq', 0)],
    'C02': [SEQ, IP, comp('seq', 0)],
    'C03': [SEQ, IP, DUMP, comp('seq', 0), comp('inplace', 0), comp('seq', 4)],
    'C04': [SEQ, IP, comp('seq', 0)],
    'C05': [SEQ, IP, comp('seq', 0), comp('inplace', 0)],
    'C06': [DUMP, comp('dump', 0), comp('dump', 2), comp('dump', 4)],
    'C07': [IP, comp('inplace', 0)],
    'C08': [IP, comp('inplace', 0)],
    'C09': [IP, comp('inplace', 0)],
    'C10': [comp('seq', 2), comp('inplace', 2)],
    'C11': [comp('seq', 4), comp('inplace', 4)],
    'C12': [comp('seq', 1), comp('inplace', 1)],
    'C13': [comp('seq', 0), comp('inplace', 0), comp('seq', 2), comp('inplace', 2)],
    'C14': [FILES],
    'C15': [TOOL],
    'C16': [ERRORS],
    'C17': [SEQ, IP, FILES, comp('seq', 0), comp('inplace', 0)],
    'C18': [CONFIGS, SEQ, IP],
}


class Outcome:
    def __init__(self):
        self.violations = []
        self.evaluations = 0
        self.summary = 'nothing run'


def sh(cmd, cwd, timeout=200):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout)


def build(progs, d):
    inc = ['-I' + os.path.join(REPO, 'c'), '-I' + os.path.join(REPO, 'c', 'heatshrink')]
    out = {}
    errors = []
    todo = []
    if 'explore' in progs or 'files' in progs:
        todo.append(['gcc'] + SAN + inc + ['-c', os.path.join(REPO, 'c/detools.c'), '-o', 'detools.o'])
        todo.append(['gcc'] + SAN + inc + ['-c', os.path.join(REPO, 'c/heatshrink/heatshrink_decoder.c'),
                                           '-o', 'hs.o'])
    for p in ('explore', 'files'):
        if p in progs:
            todo.append(['g++', '-std=c++17', '-I' + NAT] + SAN + inc
                        + ['-c', os.path.join(NAT, p + '.cpp'), '-o', p + '.o'])
    if 'tool' in progs:
        todo.append(['gcc', '-g', '-fno-builtin', '-Dmain=tool_main'] + inc
                    + ['-c', os.path.join(REPO, 'c/main.c'), '-o', 'main.o'])
    if 'configs' in progs:
        for k in range(16):
            defs = ['-DDETOOLS_CONFIG_FILE_IO=%d' % (k % 2)]
            for i, n in enumerate(('NONE', 'LZMA', 'CRLE', 'HEATSHRINK')):
                defs.append('-DDETOOLS_CONFIG_COMPRESSION_%s=%d' % (n, (k >> i) & 1))
            todo.append(['gcc', '-g', '-O0', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=all'] + defs + inc
                        + [os.path.join(NAT, 'configs.c'), os.path.join(REPO, 'c/detools.c'),
                           os.path.join(REPO, 'c/heatshrink/heatshrink_decoder.c'),
                           '-llzma', '-o', 'configs%d' % k])
            out.setdefault('configs', []).append('./configs%d' % k)
    for x in par(todo, d):
        if x.returncode:
            errors.append(x.stdout.decode('utf-8', 'replace')[-400:])
    if 'explore' in progs:
        x = sh(['g++'] + SAN + ['-Wl,--wrap=malloc,--wrap=free,--wrap=lzma_alone_decoder,--wrap=lzma_end',
                                'explore.o', 'detools.o', 'hs.o', '-llzma', '-o', 'explore'], d)
        out['explore'] = ['./explore']
        if x.returncode:
            errors.append(x.stdout.decode('utf-8', 'replace')[-400:])
    if 'files' in progs:
        wraps = ['-Wl,--wrap=' + f for f in ('fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell', 'fflush')]
        x = sh(['g++'] + SAN + wraps + ['files.o', 'detools.o', 'hs.o', '-llzma', '-o', 'files'], d)
        out['files'] = ['./files']
        if x.returncode:
            errors.append(x.stdout.decode('utf-8', 'replace')[-400:])
    if 'tool' in progs:
        x = sh(['gcc', '-g'] + inc + [os.path.join(NAT, 'tool.c'), 'main.o', '-o', 'tool'], d)
        out['tool'] = ['./tool']
        if x.returncode:
            errors.append(x.stdout.decode('utf-8', 'replace')[-400:])
    return out, errors


def par(cmds, d):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda c: sh(c, d), cmds))


def explore(prop, seed, limit, failed, undecided):
    o = Outcome()
    modes = MODES.get(prop)
    if prop in EXTRA:
        return EXTRA[prop](prop, seed, limit, failed, undecided)
    if not modes:
        return o
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vg-nat-')
    try:
        progs = set(m[0] for m in modes)
        try:
            bins, errors = build(progs, d)
        except Exception as e:
            o.summary = 'native build failed: %r' % e
            return o
        if errors:
            o.summary = 'native build failed: ' + errors[0]
            return o
        # The property's own violations first; when an obligation failed,
        # any violation the same input shows is a replay for it.
        phases = [(prop, 0.35), (None, 0.65)] if failed else [(prop, 1.0)]
        notes = []
        for tags, share in phases:
            secs = (limit - 30) * share
            if time.time() - t0 + secs > limit:
                secs = max(5, limit - (time.time() - t0) - 10)
            run_modes(o, modes, bins, d, seed, secs, tags, notes, bool(failed))
            if o.violations:
                break
        o.summary = ('%d native cases against the reference decoders, modes %s, %.0f s%s'
                     % (o.evaluations, ', '.join(sorted(set('%s %s' % (m[0], m[1] or '') for m in modes))),
                        time.time() - t0, '; ' + '; '.join(notes) if notes else ''))
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_modes(o, modes, bins, d, seed, secs, tags, notes, any_crash):
    procs = []
    slots = 8
    plain = [m for m in modes if m[0] in ('explore', 'files')]
    for m in modes:
        if m[0] not in ('explore', 'files'):
            for b in bins[m[0]]:
                procs.append((m, [b], dict(m[2]), None))
    n = max(1, slots // max(1, len(plain)))
    for m in plain:
        for k in range(n):
            s = str(seed * 100 + k + 1)
            cmd = bins[m[0]] + ([m[1]] if m[1] else []) + [s, '%.0f' % secs]
            procs.append((m, cmd, dict(m[2]), s))
    running = []
    for m, cmd, env, s in procs:
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', **env)
        e.pop('VG_TAGS', None)
        if tags and m[0] == 'explore':
            e['VG_TAGS'] = tags
        f = tempfile.TemporaryFile()
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
        running.append((p, f, cmd, env))
    end = time.time() + secs + 25
    while running and time.time() < end:
        time.sleep(0.1)
        for x in list(running):
            p, f, cmd, env = x
            if p.poll() is None:
                continue
            running.remove(x)
            f.seek(0)
            out = f.read().decode('utf-8', 'replace')
            f.close()
            for c in re.findall(r'^DONE \S+ (\d+) cases', out, re.M):
                o.evaluations += int(c)
            if p.returncode != 0:
                tag = re.search(r'^VIOL (\S+)', out, re.M)
                if tag and (tags is None or tag.group(1) == tags or (any_crash and 'memory or arithmetic' in out)):
                    envs = ' '.join('%s=%s' % y for y in env.items())
                    i = max(0, out.find('VIOL') - 6000)
                    o.violations.append('command: %s %s\n%s' % (envs, ' '.join(cmd), out[i:i + 12000]))
                else:
                    notes.append('%s ended with %d' % (' '.join(cmd[:2]), p.returncode))
        if o.violations:
            break
    for p, f, cmd, env in running:
        p.kill()
        p.wait()
        f.close()


def explore_bsdiff(prop, seed, limit, failed, undecided):
    """The extension module, built with sanitizers, on random images and
    suffix arrays."""
    o = Outcome()
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vg-nat-')
    try:
        inc = sysconfig.get_paths()['include']
        x = sh(['gcc'] + SAN + ['-shared', '-fPIC', '-I' + inc, os.path.join(REPO, 'detools', 'bsdiff.c'),
                                '-o', 'bsdiff.so'], d)
        if x.returncode:
            o.summary = 'native build failed: ' + x.stdout.decode('utf-8', 'replace')[-400:]
            return o
        asan = sh(['gcc', '-print-file-name=libasan.so'], d).stdout.decode().strip()
        ubsan = sh(['gcc', '-print-file-name=libubsan.so'], d).stdout.decode().strip()
        # Any violation the same input shows is a replay for a failed obligation.
        tags = 'E01,E02,E03' if failed else prop
        secs = (limit - 30) / 2
        env = dict(os.environ, LD_PRELOAD=asan + ' ' + ubsan, PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0')
        procs = []
        for k in range(8):
            f = tempfile.TemporaryFile()
            s = seed * 100 + k + 1
            cmd = ['python3', os.path.join(NAT, 'bsdiff.py'), d, str(s), '%.0f' % secs, tags]
            procs.append((subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT),
                          f, cmd, s))
        end = time.time() + secs + 25
        notes = []
        while procs and time.time() < end and not o.violations:
            time.sleep(0.1)
            for x in list(procs):
                p, f, cmd, s = x
                if p.poll() is None:
                    continue
                procs.remove(x)
                f.seek(0)
                out = f.read().decode('utf-8', 'replace')
                for c in re.findall(r'^DONE \S+ (\d+) cases', out, re.M):
                    o.evaluations += int(c)
                crash = 'Sanitizer' in out or 'runtime error' in out or p.returncode < 0
                if 'VIOL' in out or crash and ('E03' in tags):
                    last = ''
                    if os.path.exists(os.path.join(d, 'last-%d' % s)):
                        last = open(os.path.join(d, 'last-%d' % s)).read()
                    o.violations.append('command: %s\nlast case: %s\n%s'
                                        % (' '.join(cmd), last, out[-8000:]))
                elif p.returncode:
                    notes.append('ended with %d: %s' % (p.returncode, out[-200:]))
        for p, f, cmd, s in procs:
            p.kill()
            p.wait()
        o.summary = ('%d native cases of native/bsdiff.py on the extension built with sanitizers, %.0f s%s'
                     % (o.evaluations, time.time() - t0, '; ' + '; '.join(notes) if notes else ''))
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


EXTRA = {'E01': explore_bsdiff, 'E02': explore_bsdiff, 'E03': explore_bsdiff}
