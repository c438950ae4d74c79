"""Vocabulary of the reference descriptions.

The modules of this package describe what the objects of the eventio format contain.
They are never run, the analysis interprets them the same way as the code of the
repository and compares the two results.  Everything is little endian and packed.
"""
import struct
import numpy as np
from eventio.var_int import (
    unsigned_varint, varint, unsigned_varint_array, varint_array, unsigned_varint_arrays_differential,
)


class Unspecified(Exception):
    """inputs for which any behaviour is accepted"""


class Reader:
    """the fields of a payload in the order in which they are stored"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def take(self, fmt, size):
        v, = struct.unpack_from('<' + fmt, self.data, self.pos)
        self.pos += size
        return v

    def i1(self): return self.take('b', 1)
    def u1(self): return self.take('B', 1)
    def i2(self): return self.take('h', 2)
    def u2(self): return self.take('H', 2)
    def i4(self): return self.take('i', 4)
    def u4(self): return self.take('I', 4)
    def i8(self): return self.take('q', 8)
    def u8(self): return self.take('Q', 8)
    def f4(self): return self.take('f', 4)
    def f8(self): return self.take('d', 8)

    def array(self, dtype, n, size):
        a = np.frombuffer(self.data, dtype=dtype, count=n, offset=self.pos)
        self.pos += n * size
        return a

    def i1s(self, n): return self.array('<i1', n, 1)
    def u1s(self, n): return self.array('<u1', n, 1)
    def i2s(self, n): return self.array('<i2', n, 2)
    def u2s(self, n): return self.array('<u2', n, 2)
    def i4s(self, n): return self.array('<i4', n, 4)
    def u4s(self, n): return self.array('<u4', n, 4)
    def i8s(self, n): return self.array('<i8', n, 8)
    def f4s(self, n): return self.array('<f4', n, 4)
    def f8s(self, n): return self.array('<f8', n, 8)

    def bytes(self, n):
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def rest(self):
        return self.data[self.pos:]

    def string(self):
        """16 bit length and the characters"""
        n = self.i2()
        if n < 0:
            raise Unspecified
        return self.bytes(n)

    def uv(self):
        v, n = unsigned_varint(self.data, self.pos)
        self.pos += n
        return v

    def sv(self):
        v, n = varint(self.data, self.pos)
        self.pos += n
        return v

    def uvs(self, n):
        v, k = unsigned_varint_array(self.data, n, self.pos)
        self.pos += k
        return v

    def svs(self, n):
        v, k = varint_array(self.data, n, self.pos)
        self.pos += k
        return v

    def diff(self, n, m):
        """n arrays of m values, stored as differences to the previous value"""
        v, k = unsigned_varint_arrays_differential(self.data, n, m, self.pos)
        self.pos += k
        return v

    def vstring(self):
        return self.bytes(self.uv())
