"""The framing of eventio files and the view of an object on its payload."""
import struct
import zstandard
from .dsl import Unspecified


class Payload:
    """a payload of `size` bytes at `addr` of the file content `data`"""

    def __init__(self, data, addr, size, pos):
        self.data = data
        self.addr = addr
        self.size = size
        self.pos = pos

    def read(self, n=-1):
        avail = self.size - self.pos
        if avail < 0:
            avail = 0
        if n < 0 or n > avail:
            n = avail
        # a truncated file has fewer bytes
        start = self.addr + self.pos
        rest = len(self.data) - start
        if rest < 0:
            rest = 0
        if n > rest:
            n = rest
        b = self.data[start:start + n]
        self.pos += n
        return b

    def seek(self, offset, whence=0):
        if whence == 0:
            p = offset
        elif whence == 1:
            p = self.pos + offset
        elif whence == 2:
            # counted backwards from the end, at most to the start
            p = self.size - offset
            if offset > self.size:
                p = 0
        else:
            raise ValueError
        if p < 0:
            raise ValueError
        self.pos = p
        return p

    def tell(self):
        return self.pos


def sequence(data, addr, size, ops):
    """results of the operations"""
    p = Payload(data, addr, size, 0)
    out = []
    for op, args in ops:
        if op == 'read':
            out.append(p.read(*args))
        elif op == 'seek':
            out.append(p.seek(*args))
        else:
            out.append(p.tell())
    return out


def header(data, start, pos, end):
    """the header of the object that starts at start, its first word is at pos; end: end of the readable range"""
    if end - pos < 12:
        raise EOFError
    word, = struct.unpack_from('<I', data, pos)
    ident, = struct.unpack_from('<i', data, pos + 4)
    length, = struct.unpack_from('<I', data, pos + 8)
    h = {
        'type': word & 0xffff,
        'user': (word >> 16) & 1 == 1,
        'extended': (word >> 17) & 1 == 1,
        'version': (word >> 20) & 0xfff,
        'id': ident,
        'only_subobjects': (length >> 30) & 1 == 1,
        'content_size': length & 0x3fffffff,
        'header_size': pos - start + 12,
    }
    if h['extended']:
        if end - pos < 16:
            raise EOFError
        ext, = struct.unpack_from('<I', data, pos + 12)
        h['content_size'] += (ext & 0xfff) << 30
        h['header_size'] += 4
    h['content_address'] = start + h['header_size']
    h['total_size'] = h['header_size'] + h['content_size']
    return h


def toplevel(data, pos, n):
    if pos > n:
        raise EOFError
    if pos == n:
        raise StopIteration
    if n - pos < 4:
        raise EOFError
    sync, = struct.unpack_from('<I', data, pos)
    if sync == 0x378a1fd4:
        raise NotImplementedError
    if sync != 0xd41f8a37:
        raise ValueError
    return header(data, pos, pos + 4, n)


class File:
    """a sequence of objects"""

    def __init__(self, data, pos):
        self.data = data
        self.pos = pos
        self.ahead = None
        self.error = None

    def fetch(self):
        h = toplevel(self.data, self.pos, len(self.data))
        self.pos += h['total_size']
        return h

    def next(self):
        if self.ahead is not None:
            h = self.ahead
            self.ahead = None
            return h
        if self.error is not None:
            e = self.error
            self.error = None
            raise e
        return self.fetch()

    def peek(self):
        if self.ahead is None and self.error is None:
            try:
                self.ahead = self.fetch()
            except StopIteration:
                pass
            except (EOFError, IOError) as e:
                self.error = e
        return self.ahead


def history(data, pos, ops):
    f = File(data, pos)
    out = []
    for op in ops:
        if op == 'next':
            out.append(f.next())
        else:
            out.append(f.peek())
    return out


class Subobjects:
    """the objects inside of a payload"""

    def __init__(self, data, addr, size, pos):
        self.data = data
        self.addr = addr
        self.size = size
        self.pos = pos

    def next(self):
        if self.pos >= self.size:
            raise StopIteration
        end = self.addr + self.size
        if end > len(self.data):
            end = len(self.data)
        start = self.addr + self.pos
        h = header(self.data, start, start, end)
        self.pos += h['total_size']
        return h


def subobjects(data, addr, size, flag, pos, n):
    if not flag:
        raise ValueError
    s = Subobjects(data, addr, size, pos)
    out = []
    for k in range(n):
        out.append(s.next())
    return out


class Process:
    """a decompressor that has been started"""
    returncode = None

    def __init__(self, out, err):
        self.stdout = out
        self.stderr = err

    def poll(self):
        return None


class Stat:
    def __init__(self, size):
        self.st_size = size


class Zstd:
    def stream_reader(self, source, read_size=0, **kwargs):
        return zstandard.open(source)
