import array
import bsdiff
import struct


def unpack(data, pos=0):
    b = data[pos]
    negative = b & 0x40
    value = b & 0x3f
    shift = 6
    while b & 0x80:
        pos += 1
        b = data[pos]
        value |= (b & 0x7f) << shift
        shift += 7
    return -value if negative else value


def create(old, new, sa=None):
    if sa is None:
        sa = sorted(range(len(old) + 1), key=lambda i: old[i:])
    return bsdiff.create_patch(bytearray(struct.pack('=%di' % len(sa), *sa)),
                               array.array('B', list(old)), array.array('B', list(new)),
                               bytearray(len(new) + 1))


def check(old, new, sa=None):
    chunks = create(old, new, sa)
    out = bytearray()
    pos = 0
    for i in range(0, len(chunks), 5):
        n = unpack(chunks[i])
        assert n == len(chunks[i + 1]) and 0 <= pos and pos + n <= len(old), 'diff'
        out += bytes((a + b) & 0xff for a, b in zip(old[pos:pos + n], chunks[i + 1]))
        pos += n
        assert unpack(chunks[i + 2]) == len(chunks[i + 3]), 'extra'
        out += chunks[i + 3]
        pos += unpack(chunks[i + 4])
    assert bytes(out) == new, (old.hex(), new.hex(), bytes(out).hex())
