"""Reading of single values, strings and arrays from a stream.

All functions take the content of the stream and a position and return the value and the
position after it.  Less bytes than needed are an error.
"""
import numpy as np
from spec.varint import length, value, signed


class Unspecified(Exception):
    pass


def need(data, pos, n):
    if n > 0 and pos + n > len(data):
        raise EOFError('beyond the end of the data')


def number(data, pos, n):
    """little endian unsigned integer"""
    need(data, pos, n)
    v = 0
    for k in range(n):
        v = v + data[pos + k] * 2**(8 * k)
    return v


def two(v, n):
    """two's complement"""
    if v >= 2**(8 * n - 1):
        return v - 2**(8 * n)
    return v


def short(data, pos):
    return two(number(data, pos, 2), 2), pos + 2


def unsigned_short(data, pos):
    return number(data, pos, 2), pos + 2


def integer(data, pos):
    return two(number(data, pos, 4), 4), pos + 4


def unsigned_integer(data, pos):
    return number(data, pos, 4), pos + 4


def array_of(data, pos, dtype, size, count):
    if count < 0:
        raise Unspecified
    if count == 0:
        return np.zeros(0, dtype=dtype), pos
    need(data, pos, size * count)
    return np.frombuffer(data, dtype=dtype, count=count, offset=pos), pos + size * count


def float4(data, pos):
    need(data, pos, 4)
    return np.frombuffer(data, dtype='<f4', count=1, offset=pos)[0], pos + 4


def float8(data, pos):
    need(data, pos, 8)
    return np.frombuffer(data, dtype='<f8', count=1, offset=pos)[0], pos + 8


def string(data, pos):
    n, pos = short(data, pos)
    if n < 0:
        raise ValueError
    need(data, pos, n)
    return data[pos:pos + n], pos + n


def unsigned_varint(data, pos):
    need(data, pos, 1)
    n = length(data[pos])
    need(data, pos, n)
    return value(data, pos), pos + n


def varint(data, pos):
    v, pos = unsigned_varint(data, pos)
    return signed(v), pos


def var_string(data, pos):
    n, pos = unsigned_varint(data, pos)
    need(data, pos, n)
    return data[pos:pos + n], pos + n


def time(data, pos):
    s, pos = integer(data, pos)
    n, pos = integer(data, pos)
    return (s, n), pos


def ints(data, pos, n):
    if n < 0:
        raise Unspecified
    need(data, pos, 4 * n)
    return tuple([two(number(data, pos + 4 * k, 4), 4) for k in range(n)]), pos + 4 * n


def four(data, pos):
    v, pos = integer(data, pos)
    need(data, pos, 4)
    return (v, data[pos:pos + 4]), pos + 4
