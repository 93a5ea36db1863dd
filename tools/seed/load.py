"""Imports modules of ./detools without the packages that are not installed
here and without its own extension modules."""
import importlib.abc
import importlib.machinery
import os
import re
import sys
import types
from unittest.mock import MagicMock


class Format:
    def __init__(self, fmt):
        self.items = [(k, int(n)) for k, n in re.findall(r'([usp])(\d+)', fmt)]
        self.bits = sum(n for _, n in self.items)

    def pack(self, *args):
        args = list(args)
        value = 0
        for k, n in self.items:
            v = 0 if k == 'p' else args.pop(0)
            if k == 'u' and not 0 <= v < 1 << n or k == 's' and not -(1 << n - 1) <= v < 1 << n - 1:
                raise ValueError('out of range')
            value = value << n | v & (1 << n) - 1
        pad = -self.bits % 8
        return (value << pad).to_bytes((self.bits + pad) // 8, 'big')

    def unpack(self, data):
        left = len(data) * 8
        value = int.from_bytes(data, 'big')
        res = []
        for k, n in self.items:
            left -= n
            v = value >> left & (1 << n) - 1
            if k == 's' and v >> n - 1:
                v -= 1 << n
            if k != 'p':
                res.append(v)
        return tuple(res)


def pack_size(v):
    neg = v < 0
    m = -v if neg else v
    out = [(0x40 if neg else 0) | m & 0x3f]
    m >>= 6
    while m:
        out[-1] |= 0x80
        out.append(m & 0x7f)
        m >>= 7
    return bytes(out)


def byteswap(fmt, data):
    out = b''
    for n in map(int, fmt):
        out += data[:n][::-1]
        data = data[n:]
    return out


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = MagicMock(name=spec.name)
        m.__path__ = []
        m.__spec__ = spec
        return m

    def exec_module(self, module):
        pass


def install():
    sys.dont_write_bytecode = True
    bitstruct = types.ModuleType('bitstruct')
    bitstruct.compile = Format
    bitstruct.pack = lambda fmt, *a: Format(fmt).pack(*a)
    bitstruct.unpack = lambda fmt, d: Format(fmt).unpack(d)
    bitstruct.byteswap = byteswap
    sys.modules['bitstruct'] = bitstruct
    sys.modules['bitstruct.c'] = bitstruct
    pkg = types.ModuleType('detools')
    pkg.__path__ = [os.path.join(os.getcwd(), 'detools')]
    sys.modules['detools'] = pkg
    bsdiff = types.ModuleType('detools.bsdiff')
    bsdiff.pack_size = pack_size
    sys.modules['detools.bsdiff'] = pkg.bsdiff = bsdiff
    for ext in ('suffix_array', 'hdiffpatch'):
        sys.modules['detools.' + ext] = MagicMock()
    sys.meta_path.append(Finder())


install()
