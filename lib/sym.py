"""Symbolic execution of the real Python sources, every path, with the
obligations of a unit discharged by z3.

The sources are read from the repository on every run and executed as they
are, with these replacements, which are the trusted part:

- imports of repository modules load the repository's source the same way;
  struct, bitstruct and io.BytesIO are the models below; anything else is an
  inert object whose use ends the unit undecided where a value is needed;
- integers that a unit makes arbitrary are Int objects (z3 integers, or
  80-bit two's complement where bits are picked apart; each operation of the
  latter has the obligation that it does not leave 80 bits);
- len, range, max, min and the like are Python's own, except where a unit
  says so.

A condition on an arbitrary integer forks: the unit is run again for each
side that is satisfiable. In concrete mode the same unit runs on the values
of a model, to confirm a counterexample against the real code."""

import ast
import builtins
import os
import struct as real_struct
import sys
import types

import z3

REPO = os.environ.get('VERIF_REPO', '/repo')
WIDTH = 80


class Cut(Exception):
    """The path is over: infeasible, or its obligations are all stated."""


class Failed(Exception):
    pass


class Unmodelled(Exception):
    pass


class Engine:
    def __init__(self, inputs=None):
        self.inputs = inputs           # concrete mode: name -> value
        self.obligations = 0
        self.discharged = 0
        self.names = set()
        self.covers = set()
        self.failed = []               # (obligation, inputs)
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.paths = 0
        self.queries = 0

    # -- paths ---------------------------------------------------------
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.fresh_names = {}
        self.vars = {}
        self.base = None
        self.multiples = []
        self.solver.reset()
        self.paths += 1

    def check(self, *conds):
        self.queries += 1
        r = self.solver.check(*conds)
        if r == z3.unknown:
            raise Unmodelled('solver gave up: %s' % self.solver.reason_unknown())
        return r == z3.sat

    def decide(self, cond):
        """Truth of a z3 condition on this path, forking if both are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.taken)
        if n < len(self.prefix):
            value = self.prefix[n]
        else:
            yes = self.check(cond)
            no = self.check(z3.Not(cond)) if yes else True
            if yes and no:
                self.pending.append(self.taken + [False])
            value = yes
        self.taken.append(value)
        self.solver.add(cond if value else z3.Not(cond))
        return value

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Cut()
            return
        self.solver.add(cond.t)
        if len(self.taken) >= len(self.prefix) and not self.check():
            raise Cut()

    def oblige(self, cond, name):
        """An obligation: holds on every path that gets here."""
        self.names.add(name)
        if len(self.taken) < len(self.prefix):
            # Discharged when the path this one branches off got here.
            return
        self.obligations += 1
        if isinstance(cond, Bool):
            t = z3.simplify(cond.t)
            if z3.is_true(t):
                ok = True
            else:
                ok = not self.check(z3.Not(t))
                if not ok:
                    self.model(name, z3.Not(t))
        else:
            ok = bool(cond)
            if not ok:
                if self.inputs is None:
                    self.model(name, z3.BoolVal(True))
                self.fail(name, None)
        if ok:
            self.discharged += 1

    def model(self, name, cond):
        if self.multiples:
            small = [z3.And(z3.Int(n) <= 40) for n in self.vars if z3.is_int(self.vars[n])]
            for extra in (small, []):
                try:
                    if self.check(cond, *(self.exact() + extra)):
                        self.fail(name, self.solver.model())
                except Unmodelled:
                    pass
            self.fail(name, None)
        if self.check(cond):
            self.fail(name, self.solver.model())
        self.fail(name, None)

    def fail(self, name, model):
        values = {}
        for key, t in self.vars.items():
            if model is None:
                continue
            v = model.eval(t, model_completion=True)
            if z3.is_array(t):
                values[key] = array_of(v)
            elif z3.is_bool(v):
                values[key] = z3.is_true(v)
            elif z3.is_bv(v):
                values[key] = v.as_signed_long() if v.size() == WIDTH else v.as_long()
            else:
                values[key] = v.as_long()
        self.failed.append((name, values))
        raise Failed(name)

    def cover(self, name):
        self.covers.add(name)

    # -- arbitrary values ----------------------------------------------
    def name(self, name):
        n = self.fresh_names.get(name, 0)
        self.fresh_names[name] = n + 1
        return name if n == 0 else '%s.%d' % (name, n)

    def integer(self, name, low=None, high=None):
        """Arbitrary integer (z3 integer), low <= it <= high."""
        name = self.name(name)
        if self.inputs is not None:
            return self.inputs.get(name, low or 0)
        v = Int(z3.Int(name))
        self.vars[name] = v.t
        return self.within(v, low, high)

    def bits(self, name, low=None, high=None):
        """Arbitrary integer whose bits are picked apart."""
        name = self.name(name)
        if self.inputs is not None:
            return self.inputs.get(name, low or 0)
        v = Int(z3.BitVec(name, WIDTH))
        self.vars[name] = v.t
        return self.within(v, low, high)

    def within(self, v, low, high):
        if low is not None:
            self.assume(v >= low)
        if high is not None:
            self.assume(v <= high)
        return v

    # -- multiples of one arbitrary positive integer ---------------------
    # A product with the base is a fresh value; what relates two multiples
    # is stated for each pair (x <= y and x < y and y = x + 1 carry over to
    # the products), which keeps every formula linear.
    def make_base(self, v):
        if isinstance(v, Int):
            self.base = v.t
            self.multiples = []
            self.multiple(z3.IntVal(0), z3.IntVal(0))
            self.multiple(z3.IntVal(1), v.t)
        return v

    def multiple(self, coef, value=None):
        coef = z3.simplify(coef)
        for c, v in self.multiples:
            if z3.eq(c, coef):
                if value is not None:
                    self.solver.add(value == v)
                return self.tagged(c, v)
        if value is None:
            value = z3.Int('multiple!%d' % len(self.multiples))
        for c, v in self.multiples:
            for x, vx, y, vy in ((c, v, coef, value), (coef, value, c, v)):
                self.solver.add(z3.Implies(x <= y, vx <= vy),
                                z3.Implies(x < y, vx + self.base <= vy),
                                z3.Implies(y == x + 1, vy == vx + self.base))
        self.multiples.append((coef, value))
        return self.tagged(coef, value)

    def tagged(self, coef, value):
        res = Int(value)
        res.coef = coef
        return res

    def exact(self):
        """The products as products, for a model."""
        return [v == c * self.base for c, v in self.multiples]

    def boolean(self, name):
        name = self.name(name)
        if self.inputs is not None:
            return bool(self.inputs.get(name, False))
        t = z3.Bool(name)
        self.vars[name] = t
        return self.decide(t)

    def byte(self, name):
        return self.bits(name, 0, 255)

    def content(self, name):
        """Arbitrary file content: address -> byte."""
        name = self.name(name)
        if self.inputs is not None:
            return Content(self.inputs.get(name, {'else': 0}))
        t = z3.Array(name, z3.BitVecSort(WIDTH), z3.BitVecSort(8))
        self.vars[name] = t
        return Content(t)


def array_of(v):
    res = {'else': 0}
    while True:
        if z3.is_store(v):
            key = v.arg(1).as_signed_long()
            res.setdefault(str(key), v.arg(2).as_long())
            v = v.arg(0)
        elif z3.is_K(v):
            res['else'] = v.arg(0).as_long()
            return res
        else:
            return res


E = None


def engine():
    return E


class Content:
    def __init__(self, t):
        self.t = t

    def get(self, at):
        if isinstance(self.t, dict):
            return self.t.get(str(at), self.t['else'])
        at = z3.BitVecVal(at, WIDTH) if isinstance(at, int) else at.t
        return Int(z3.ZeroExt(WIDTH - 8, z3.Select(self.t, at)))


class Bool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.decide(self.t)

    # Python's bool is an int.
    def as_int(self):
        return 1 if bool(self) else 0


def both(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool):
        return Bool(z3.And(term(a), term(b)))
    return a and b


def implies(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool):
        return Bool(z3.Implies(term(a), term(b)))
    return (not a) or b


def term(a):
    return a.t if isinstance(a, (Bool, Int)) else z3.BoolVal(a) if isinstance(a, bool) else a


class Int:
    __slots__ = ('t', 'coef')

    def __init__(self, t):
        self.t = t
        self.coef = None

    def coefficient(self, o):
        if isinstance(o, Int):
            return o.coef
        if isinstance(o, int) and not isinstance(o, bool) and o == 0:
            return z3.IntVal(0)
        return None

    def bv(self):
        return z3.is_bv(self.t)

    def lift(self, o):
        if isinstance(o, Bool):
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if self.bv():
                if not -(1 << (WIDTH - 1)) <= o < (1 << (WIDTH - 1)):
                    raise Unmodelled('constant beyond %d bits' % WIDTH)
                return z3.BitVecVal(o, WIDTH)
            return z3.IntVal(o)
        if isinstance(o, Int):
            if o.bv() != self.bv():
                raise Unmodelled('integers of two kinds')
            return o.t
        return None

    def arith(self, o, op, fits=None):
        t = self.lift(o)
        if t is None:
            return NotImplemented
        if self.bv() and fits is not None:
            E.oblige(Bool(fits(self.t, t)), 'modelled integer stays below 2^%d' % (WIDTH - 1))
        return Int(op(self.t, t))

    def combined(self, o, op):
        if E.multiples and self.coef is not None:
            c = self.coefficient(o)
            if c is not None:
                return E.multiple(op(self.coef, c), op(self.t, self.lift(o)))
        return None

    def __add__(self, o):
        m = self.combined(o, lambda a, b: a + b)
        if m is not None:
            return m
        return self.arith(o, lambda a, b: a + b,
                          lambda a, b: z3.And(z3.BVAddNoOverflow(a, b, True),
                                              z3.BVAddNoUnderflow(a, b)))
    __radd__ = __add__

    def __sub__(self, o):
        m = self.combined(o, lambda a, b: a - b)
        if m is not None:
            return m
        return self.arith(o, lambda a, b: a - b,
                          lambda a, b: z3.And(z3.BVSubNoOverflow(a, b),
                                              z3.BVSubNoUnderflow(a, b, True)))

    def __rsub__(self, o):
        r = Int(self.lift(o))
        r.coef = self.coefficient(o)
        return r - self

    def __mul__(self, o):
        if self.bv():
            if isinstance(o, int) and o == -1:
                return -self
            if isinstance(o, int) and 0 < o < 256:
                res = Int(z3.BitVecVal(0, WIDTH))
                for i in range(8):
                    if o >> i & 1:
                        res = res + (self << i)
                return res
            if isinstance(o, int) and o == 0:
                return 0
            raise Unmodelled('product of bit patterns')
        if not isinstance(o, (int, Int)):
            return NotImplemented
        if E.multiples:
            a, b = self.t, self.lift(o)
            if z3.eq(a, E.base):
                a, b = b, a
            if z3.eq(b, E.base):
                return E.multiple(a, a * b if z3.is_int_value(z3.simplify(a)) else None)
            if not isinstance(o, int):
                raise Unmodelled('product of arbitrary integers')
            if self.coef is not None:
                return E.multiple(self.coef * o, self.t * o)
        return self.arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def division(self, o):
        if self.bv():
            raise Unmodelled('division of bit patterns')
        t = self.lift(o)
        if t is None:
            return None
        if E.decide(t == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not E.decide(t > 0):
            raise Unmodelled('negative divisor')
        return t

    def by_base(self, t):
        """Quotient and remainder of a division by the base."""
        if not E.multiples or not z3.eq(t, E.base):
            return None
        if self.coef is not None:
            return Int(self.coef), 0
        q = Int(z3.Int('quotient!%d' % len(E.multiples)))
        m = E.multiple(q.t)
        E.solver.add(m.t <= self.t, self.t < m.t + E.base)
        return q, Int(self.t - m.t)

    def __floordiv__(self, o):
        t = self.division(o)
        if t is None:
            return NotImplemented
        qr = self.by_base(t)
        return qr[0] if qr else Int(self.t / t)

    def __mod__(self, o):
        if self.bv() and isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        t = self.division(o)
        if t is None:
            return NotImplemented
        qr = self.by_base(t)
        return qr[1] if qr else Int(self.t % t)

    def __rfloordiv__(self, o):
        return Int(self.lift(o)) // self

    def __rmod__(self, o):
        return Int(self.lift(o)) % self

    def need_bits(self):
        if not self.bv():
            raise Unmodelled('bits of a mathematical integer')

    def __and__(self, o):
        self.need_bits()
        return self.arith(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        self.need_bits()
        return self.arith(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        self.need_bits()
        return self.arith(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        self.need_bits()
        return Int(~self.t)

    def __lshift__(self, o):
        self.need_bits()
        if not isinstance(o, int):
            raise Unmodelled('shift by an arbitrary amount')
        if o < 0:
            raise ValueError('negative shift count')
        if o >= WIDTH:
            raise Unmodelled('shift beyond %d bits' % WIDTH)
        E.oblige(Bool(((self.t << o) >> o) == self.t),
                 'modelled integer stays below 2^%d' % (WIDTH - 1))
        return Int(self.t << o)

    def __rlshift__(self, o):
        raise Unmodelled('shift by an arbitrary amount')
    __rrshift__ = __rlshift__

    def __rshift__(self, o):
        self.need_bits()
        if not isinstance(o, int):
            raise Unmodelled('shift by an arbitrary amount')
        if o < 0:
            raise ValueError('negative shift count')
        return Int(self.t >> min(o, WIDTH - 1))

    def compare(self, o, op):
        t = self.lift(o)
        if t is None:
            return NotImplemented
        return Bool(op(self.t, t))

    def __eq__(self, o):
        r = self.compare(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.compare(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self.compare(o, lambda a, b: a < b)

    def __le__(self, o):
        return self.compare(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self.compare(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self.compare(o, lambda a, b: a >= b)

    def __bool__(self):
        return E.decide(self.t != self.lift(0))

    def __hash__(self):
        return 0

    def __format__(self, spec):
        return '?'

    def __str__(self):
        return '?'
    __repr__ = __str__

    def __index__(self):
        raise Unmodelled('an arbitrary integer where a concrete one is needed')
    __int__ = __index__

    def bit_length(self):
        raise Unmodelled('bit_length')


class Bytes:
    """Byte string of known length, some bytes arbitrary."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Bytes(self.items[i])
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def __add__(self, o):
        return Bytes(self.items + list(o))

    def __radd__(self, o):
        return Bytes(list(o) + self.items)

    def __mul__(self, n):
        return Bytes(self.items * n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (Bytes, bytes, bytearray)):
            return False
        if len(o) != len(self):
            return False
        for a, b in zip(self.items, o):
            if not (a == b):
                return False
        return True

    def __hash__(self):
        return 0

    def __repr__(self):
        return '?'


def bit_term(v):
    return z3.BitVecVal(v, WIDTH) if isinstance(v, int) else v.t


def octet(v, i):
    """Byte i of an integer."""
    if isinstance(v, int):
        return (v >> (8 * i)) & 0xff
    return Int(z3.ZeroExt(WIDTH - 8, z3.Extract(8 * i + 7, 8 * i, v.t)))


# -- models of library modules ------------------------------------------
class StructModel:
    """struct.pack and struct.unpack of the integer formats."""
    error = real_struct.error
    SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}

    def fields(self, fmt):
        if fmt[0] not in '<>' and fmt != 'B':
            raise Unmodelled('struct format ' + fmt)
        res = []
        for c in fmt.lstrip('<>'):
            if c not in self.SIZES:
                raise Unmodelled('struct format ' + fmt)
            res.append((self.SIZES[c], c.islower()))
        return res

    def pack(self, fmt, *values):
        fields = self.fields(fmt)
        if len(fields) != len(values):
            raise self.error('pack expected %d items' % len(fields))
        out = []
        for (size, signed), v in zip(fields, values):
            if not isinstance(v, (int, Int)):
                raise self.error('required argument is not an integer')
            low = -(1 << (8 * size - 1)) if signed else 0
            high = (1 << (8 * size - (1 if signed else 0))) - 1
            if not both(v >= low, v <= high):
                raise self.error('argument out of range')
            b = [octet(v, i) for i in range(size)]
            out += b if fmt[0] != '>' else b[::-1]
        return Bytes(out) if any(isinstance(x, Int) for x in out) else bytes(out)

    def calcsize(self, fmt):
        return sum(size for size, _ in self.fields(fmt))

    def unpack(self, fmt, data):
        fields = self.fields(fmt)
        if len(data) != sum(size for size, _ in fields):
            raise self.error('unpack requires a buffer of %d bytes' % self.calcsize(fmt))
        res = []
        pos = 0
        for size, signed in fields:
            b = list(data[pos:pos + size])
            pos += size
            if fmt[0] == '>':
                b = b[::-1]
            v = 0
            if all(isinstance(x, int) for x in b):
                v = int.from_bytes(bytes(b), 'little', signed=signed)
            else:
                parts = [z3.BitVecVal(x, 8) if isinstance(x, int) else z3.Extract(7, 0, x.t)
                         for x in b[::-1]]
                t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
                ext = WIDTH - 8 * size
                v = Int(z3.SignExt(ext, t) if signed else z3.ZeroExt(ext, t))
            res.append(v)
        return tuple(res)


class BitstructModel:
    """bitstruct.compile('u5u1...').pack(), pack, unpack, byteswap: unsigned
    fields and padding, most significant bit first."""

    def fields(self, fmt):
        res = []
        i = 0
        while i < len(fmt):
            kind = fmt[i]
            j = i + 1
            while j < len(fmt) and fmt[j].isdigit():
                j += 1
            if kind not in 'up' or j == i + 1:
                raise Unmodelled('bitstruct format ' + fmt)
            res.append((kind, int(fmt[i + 1:j])))
            i = j
        if sum(n for _, n in res) % 8:
            raise Unmodelled('bitstruct format ' + fmt)
        return res

    def compile(self, fmt):
        model = self

        class Compiled:
            def pack(self, *values):
                return model.pack(fmt, *values)

            def unpack(self, data):
                return model.unpack(fmt, data)
        return Compiled()

    def pack(self, fmt, *values):
        fields = self.fields(fmt)
        values = list(values)
        if len([k for k, _ in fields if k == 'u']) != len(values):
            raise ValueError('pack expected other number of items')
        bits = []
        for kind, n in fields:
            v = values.pop(0) if kind == 'u' else 0
            if not both(v >= 0, v < (1 << n)):
                raise ValueError('bit field out of range')
            if isinstance(v, int):
                bits.append(z3.BitVecVal(v, n))
            else:
                bits.append(z3.Extract(n - 1, 0, v.t))
        t = z3.simplify(z3.Concat(*bits) if len(bits) > 1 else bits[0])
        size = t.size() // 8
        if z3.is_bv_value(t):
            return t.as_long().to_bytes(size, 'big')
        return Bytes([Int(z3.ZeroExt(WIDTH - 8, z3.Extract(8 * i + 7, 8 * i, t)))
                      for i in reversed(range(size))])

    def unpack(self, fmt, data):
        fields = self.fields(fmt)
        total = sum(n for _, n in fields)
        if 8 * len(data) < total:
            raise ValueError('unpack requires more bits')
        parts = [z3.BitVecVal(x, 8) if isinstance(x, int) else z3.Extract(7, 0, x.t) for x in data]
        t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        top = t.size()
        res = []
        for kind, n in fields:
            if kind == 'u':
                f = z3.simplify(z3.Extract(top - 1, top - n, t))
                res.append(f.as_long() if z3.is_bv_value(f)
                           else Int(z3.ZeroExt(WIDTH - n, f)))
            top -= n
        return tuple(res)

    def byteswap(self, fmt, data, offset=0):
        out = []
        items = list(data)
        pos = 0
        for c in fmt:
            n = int(c)
            out += items[pos:pos + n][::-1]
            pos += n
        out += items[pos:]
        return Bytes(out) if any(isinstance(x, Int) for x in out) else bytes(out)


class Inert:
    """A library object whose use has no part in a unit's argument."""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, key):
        if key.startswith('__') and key.endswith('__'):
            raise AttributeError(key)
        return Inert(self._name + '.' + key)

    def __call__(self, *args, **kwargs):
        return Inert(self._name + '()')

    def __mro_entries__(self, bases):
        return (object,)

    def __bool__(self):
        raise Unmodelled('value of ' + self._name)

    def __index__(self):
        raise Unmodelled('value of ' + self._name)

    def __iter__(self):
        raise Unmodelled('value of ' + self._name)

    def __len__(self):
        raise Unmodelled('value of ' + self._name)

    def unmodelled(self, *args):
        raise Unmodelled('value of ' + self._name)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = unmodelled
    __floordiv__ = __mod__ = __and__ = __rand__ = __or__ = __ror__ = unmodelled
    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __lshift__ = __rshift__ = unmodelled


class Loader:
    """Executes repository modules from source. `over` overrides modules."""
    REAL = ('os', 'collections', 'operator', 'difflib', 'textwrap', '__future__', 'functools',
            'itertools', 'enum', 'math', 'time', 'logging')

    def __init__(self, over=None, builtin=None, rewrite=None):
        self.over = {'struct': StructModel(), 'bitstruct': BitstructModel()}
        self.over.update(over or {})
        self.builtin = builtin or {}
        self.rewrite = rewrite or {}
        self.modules = {}

    def load(self, name):
        """Module by dotted name relative to detools, '' for the package."""
        if name in self.over:
            return self.over[name]
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(REPO, 'detools', *name.split('.')) if name else ''
        if os.path.isdir(base):
            path, package = os.path.join(base, '__init__.py'), name
        else:
            path, package = base + '.py', name.rpartition('.')[0]
        if not name or not os.path.exists(path):
            return Inert(name)
        mod = types.ModuleType('detools.' + name)
        mod.__file__ = path
        self.modules[name] = mod
        source = open(path).read()
        tree = ast.parse(source, path)
        if name in self.rewrite:
            tree = self.rewrite[name](tree)
            ast.fix_missing_locations(tree)
        d = dict(vars(builtins))
        d.update(self.builtin)
        d['__import__'] = self.importer(package)
        mod.__dict__['__builtins__'] = d
        exec(compile(tree, path, 'exec'), mod.__dict__)
        return mod

    def importer(self, package):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                if name == 'io':
                    return self.io()
                if name in self.over:
                    return self.over[name]
                if name.split('.')[0] in self.REAL:
                    return builtins.__import__(name, None, None, fromlist, 0)
                return Inert(name)
            parts = package.split('.') if package else []
            parts = parts[:len(parts) - (level - 1)]
            full = '.'.join(parts + ([name] if name else []))
            if name:
                return self.load(full)
            holder = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(holder, f, self.load('.'.join(parts + [f])))
            return holder
        return imp

    def io(self):
        import io
        holder = types.SimpleNamespace(BytesIO=File, StringIO=io.StringIO,
                                       UnsupportedOperation=io.UnsupportedOperation)
        for key, value in self.over.get('io', {}).items() if isinstance(
                self.over.get('io'), dict) else ():
            setattr(holder, key, value)
        return holder


class File:
    """BytesIO, or a part of a file of arbitrary content and size that a loop
    over the file is at: position `start`, with `size` the size the loop is
    told, so that it makes one iteration, and `end` the size reads obey."""

    def __init__(self, data=b'', content=None, start=0, size=None, end=None):
        if isinstance(data, Whole):
            f = data.file
            content, start, size, end = f.content, f.start, f.size, f.end
            self.writes = list(data.writes)
        elif content is None:
            self.writes = [(i, v) for i, v in enumerate(data)]
            size = len(data)
        else:
            self.writes = []
        self.content = content
        self.start = start
        self.size = size
        self.end = end
        self.position = start

    def at(self, address):
        value = 0 if self.content is None else self.content.get(address)
        for a, v in self.writes:
            same = (a == address)
            if isinstance(same, Bool):
                same = z3.simplify(same.t)
                if z3.is_true(same):
                    value = v
                elif not z3.is_false(same):
                    value = Int(z3.If(same, bit_term(v), bit_term(value)))
            elif same:
                value = v
        return value

    def tell(self):
        return self.position

    def seek(self, position, whence=0):
        if whence == 0:
            self.position = position
        elif whence == 1:
            self.position = self.position + position
        else:
            self.position = self.size + position
        return self.position

    def read(self, n=-1):
        if n is None:
            n = -1
        if self.content is None:
            if isinstance(n, Int) or isinstance(self.position, Int):
                raise Unmodelled('arbitrary position in a file of known content')
            end = self.size if n < 0 else min(self.size, self.position + n)
            items = [self.at(i) for i in range(self.position, end)]
            self.position = max(self.position, end)
            return Bytes(items) if any(isinstance(x, Int) for x in items) else bytes(items)
        if isinstance(n, int) and n < 0:
            if isinstance(self.position, int) and self.position == 0:
                return Whole(self)
            raise Unmodelled('rest of a file of any size')
        res = []
        whole = bool(self.position + n <= self.end)
        for i in range(n):
            if not whole and not (self.position + i < self.end):
                break
            res.append(self.at(self.position + i))
        self.position = self.position + len(res)
        return Bytes(res) if res else b''

    def write(self, data):
        if isinstance(data, Whole):
            raise Unmodelled('write of a whole file')
        for v in data:
            self.writes.append((self.position, v))
            self.position = self.position + 1
        if self.content is None and isinstance(self.position, int):
            self.size = max(self.size, self.position)
        return len(data)

    def getvalue(self):
        if self.content is not None:
            return Whole(self)
        items = [self.at(i) for i in range(self.size)]
        return Bytes(items) if any(isinstance(x, Int) for x in items) else bytes(items)


class Whole:
    """All of a file of any size."""

    def __init__(self, f):
        self.file = f
        self.writes = list(f.writes)

    def __len__(self):
        raise Unmodelled('size of a file of any size')


def explore(unit, inputs=None, limit=4000):
    """Runs unit(engine) on every path. Returns the engine."""
    global E
    E = Engine(inputs)
    work = [[]]
    while work:
        E.begin(work.pop())
        try:
            unit(E)
        except Cut:
            pass
        work.extend(E.pending)
        if inputs is not None:
            break
        if E.paths > limit:
            raise Unmodelled('more than %d paths' % limit)
    return E
