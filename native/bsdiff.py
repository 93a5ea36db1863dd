"""Random images and suffix arrays through the built extension (bounded).
Usage: bsdiff.py DIR SEED SECONDS TAGS"""

import array
import random
import sys
import time

sys.path.insert(0, sys.argv[1])
import bsdiff  # noqa: E402

seed, secs = int(sys.argv[2]), float(sys.argv[3])
tags = sys.argv[4].split(',')
R = random.Random(seed)
cases = 0


case_file = open('last-%d' % seed, 'w')


def last(text):
    case_file.seek(0)
    case_file.truncate()
    case_file.write(text)
    case_file.flush()


def viol(tag, *text):
    if tag not in tags:
        return
    print('VIOL %s %s' % (tag, ' '.join(str(x) for x in text)))
    sys.exit(3)


def unpack(data, pos):
    b = data[pos]
    negative = b & 0x40
    value = b & 0x3f
    shift = 6
    pos += 1
    while b & 0x80:
        b = data[pos]
        pos += 1
        value |= (b & 0x7f) << shift
        shift += 7
    return (-value if negative else value), pos


def check_size(v):
    data = bsdiff.pack_size(v)
    try:
        got, pos = unpack(data, 0)
    except IndexError:
        got = pos = None
    if got != v or pos != len(data) or len(data) > 10:
        viol('E01', 'pack_size(%d) = %s, read back as %s' % (v, data.hex(), got))


def image(n, letters):
    return bytes(R.randrange(letters) for _ in range(n))


def pair():
    n = R.choice((0, 1, 2, 5, 20, 60, 200))
    letters = R.choice((2, 3, 256))
    old = image(n, letters)
    new = bytearray()
    while len(new) < R.choice((1, 10, 100, 300)):
        k = R.randrange(4)
        if k == 0 or not old:
            new += image(R.randrange(1, 20), letters)
        else:
            a = R.randrange(len(old))
            piece = bytearray(old[a:a + R.randrange(1, 90)])
            for _ in range(R.randrange(3)):
                piece[R.randrange(len(piece))] = R.randrange(256)
            new += piece
    if R.randrange(30) == 0:
        new = bytearray()
    return old, bytes(new)


def check_patch():
    old, new = pair()
    n = len(old)
    kind = R.randrange(3)
    if kind < 2:
        sa = sorted(range(n + 1), key=lambda i: old[i:])
        if kind == 1 and n:
            for _ in range(R.randrange(1, 4)):
                sa[R.randrange(n + 1)] = R.randrange(n + 1)
    else:
        sa = [R.randrange(n + 1) for _ in range(n + 1)]
    what = 'old %s new %s sa %s' % (old.hex(), new.hex(), sa)
    last(what)
    # Arrays, as their buffers have no byte after the last.
    try:
        chunks = bsdiff.create_patch(array.array('i', sa), array.array('B', list(old)),
                                     array.array('B', list(new)), bytearray(len(new) + 1))
    except (SystemError, ValueError) as e:
        viol('E02', what, 'ended with', repr(e))
        raise
    if len(chunks) % 5:
        viol('E02', what, 'number of chunks', len(chunks))
    out = bytearray()
    pos = 0
    try:
        for i in range(0, len(chunks), 5):
            ds, e = unpack(chunks[i], 0)
            if ds < 0 or e != len(chunks[i]) or len(chunks[i + 1]) != ds:
                viol('E02', what, 'diff size', ds)
            for j in range(ds):
                if not 0 <= pos + j < n:
                    viol('E02', what, 'old image read at', pos + j)
                out.append((old[pos + j] + chunks[i + 1][j]) & 0xff)
            pos += ds
            es, e = unpack(chunks[i + 2], 0)
            if es < 0 or e != len(chunks[i + 2]) or len(chunks[i + 3]) != es:
                viol('E02', what, 'extra size', es)
            out += chunks[i + 3]
            adj, e = unpack(chunks[i + 4], 0)
            if e != len(chunks[i + 4]):
                viol('E02', what, 'adjustment')
            pos += adj
            if not 0 <= pos <= n:
                viol('E02', what, 'position', pos)
    except IndexError:
        viol('E02', what, 'records')
    if bytes(out) != new:
        viol('E02', what, 'gives', bytes(out).hex())


def check_add():
    a = bytes(R.randrange(256) for _ in range(R.randrange(1, 70)))
    b = bytes(R.randrange(256) for _ in range(len(a)))
    if R.randrange(4) == 0:
        b += bytes(R.randrange(1, 9))
        if R.randrange(2):
            a, b = b, a
    last('add_bytes %s %s' % (a.hex(), b.hex()))
    try:
        got = bytes(bsdiff.add_bytes(array.array('B', list(a)), array.array('B', list(b))))
        if len(a) != len(b):
            viol('E03', 'add_bytes accepted different lengths', a.hex(), b.hex())
        if got != bytes((x + y) & 0xff for x, y in zip(a, b)):
            viol('E03', 'add_bytes', a.hex(), b.hex(), got.hex())
    except ValueError:
        if len(a) == len(b):
            viol('E03', 'add_bytes refused', a.hex(), b.hex())


end = time.time() + secs
for k in range(64):
    for d in (-1, 0, 1):
        for s in (1, -1):
            v = s * ((1 << k) + d)
            if -(1 << 63) <= v < (1 << 63):
                check_size(v)
                cases += 1
for v in range(-70000, 70000, 1 if 'E01' in tags else 97):
    check_size(v)
    cases += 1
while time.time() < end:
    if 'E01' in tags:
        for _ in range(2000):
            v = R.getrandbits(R.randrange(1, 64))
            check_size(v if R.randrange(2) else -v)
            cases += 1
    if 'E02' in tags or 'E03' in tags:
        check_patch()
        check_add()
        cases += 2
print('DONE bsdiff %d cases' % cases)
