"""Variable length integers.

The first byte tells the number of bytes: 0xxxxxxx one, 10xxxxxx two, ... 11111110 eight and
11111111 nine.  The remaining bits are the value, most significant bits first.  Values with
sign are stored as 0, -1, 1, -2, 2, ...
"""
import struct
import numpy as np


def need(data, pos, n):
    if pos + n > len(data):
        raise EOFError('beyond the end of the data')


def length(first):
    if first < 0x80:
        return 1
    if first < 0xc0:
        return 2
    if first < 0xe0:
        return 3
    if first < 0xf0:
        return 4
    if first < 0xf8:
        return 5
    if first < 0xfc:
        return 6
    if first < 0xfe:
        return 7
    if first < 0xff:
        return 8
    return 9


def value(data, pos):
    """value of the complete number at pos"""
    b = data[pos]
    if b < 0x80:
        return b
    if b < 0xc0:
        return (b - 0x80) * 2**8 + data[pos + 1]
    if b < 0xe0:
        return (b - 0xc0) * 2**16 + data[pos + 1] * 2**8 + data[pos + 2]
    if b < 0xf0:
        return (b - 0xe0) * 2**24 + data[pos + 1] * 2**16 + data[pos + 2] * 2**8 + data[pos + 3]
    if b < 0xf8:
        return (b - 0xf0) * 2**32 + big(data, pos + 1, 4)
    if b < 0xfc:
        return (b - 0xf8) * 2**40 + big(data, pos + 1, 5)
    if b < 0xfe:
        return (b - 0xfc) * 2**48 + big(data, pos + 1, 6)
    if b < 0xff:
        return big(data, pos + 1, 7)
    return big(data, pos + 1, 8)


def big(data, pos, n):
    v = 0
    for k in range(n):
        v = v * 2**8 + data[pos + k]
    return v


def signed(u):
    if u % 2 == 1:
        return -((u + 1) // 2)
    return u // 2


def unsigned_varint(data, offset):
    need(data, offset, 1)
    n = length(data[offset])
    need(data, offset, n)
    return value(data, offset), n


def varint(data, offset):
    v, n = unsigned_varint(data, offset)
    return signed(v), n


def parse_varint(data):
    need(data, 0, 1)
    if len(data) < length(data[0]):
        raise EOFError
    if len(data) > length(data[0]):
        raise Unspecified           # bytes that do not belong to the number
    return value(data, 0)


class Unspecified(Exception):
    pass


def unsigned_varint_array(data, n, offset):
    out = np.zeros(n, dtype='u8')
    pos = offset
    for i in range(n):
        v, k = unsigned_varint(data, pos)
        out[i] = v
        pos += k
    return out, pos - offset


def varint_array(data, n, offset):
    out = np.zeros(n, dtype='i8')
    pos = offset
    for i in range(n):
        v, k = varint(data, pos)
        out[i] = v
        pos += k
    return out, pos - offset


def difference(data, pos):
    """a signed difference: at most five bytes, modulo 2**32"""
    need(data, pos, 1)
    n = length(data[pos])
    if n > 5:
        raise Unspecified           # differences of 32 bit numbers are never that long
    need(data, pos, n)
    return signed(value(data, pos)), n


def unsigned_varint_arrays_differential(data, n_arrays, n_elements, offset):
    out = np.zeros((n_arrays, n_elements), dtype='u4')
    pos = offset
    for i in range(n_arrays):
        v = 0
        for j in range(n_elements):
            d, k = difference(data, pos)
            pos += k
            v = v + d
            out[i, j] = v % 2**32
    return out, pos - offset
