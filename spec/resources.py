"""Files and processes that remember whether they have been released."""


def fault(name):
    """summarised by the analysis: the operation may fail here"""


class Handle:
    """an open file or stream"""

    def __init__(self, kind, data, forward=False, source=None):
        self.kind = kind
        self.data = data
        self.forward = forward
        self.source = source
        self.closed = False
        self.frame = None

    def read(self, size=-1):
        if self.closed:
            raise ValueError
        fault('read')
        if self.frame is not None:
            # reading stops at the end of the first frame
            rest = self.frame - self.data.tell()
            if rest > 0 and (size < 0 or size > rest):
                size = rest
        return self.data.read(size)

    def seek(self, offset, whence=0):
        if self.closed:
            raise ValueError
        if self.forward and whence == 0 and offset < self.data.tell():
            raise OSError
        return self.data.seek(offset, whence)

    def tell(self):
        if self.closed:
            raise ValueError
        return self.data.tell()

    def fileno(self):
        return 3

    def seekable(self):
        return not self.forward

    def readable(self):
        return True

    def close(self):
        if not self.closed:
            self.closed = True
            if self.source is not None:
                self.source.close()

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


class Pipe(Handle):
    def seek(self, offset, whence=0):
        raise OSError

    def tell(self):
        raise OSError


class Process:
    """a program that has been started; it runs until its output is read or closed, or until it is ended"""

    def __init__(self, stdout, stderr, returncode):
        self.stdout = stdout
        self.stderr = stderr
        self.pid = 4711
        self.code = returncode
        self.returncode = None
        self.ended = returncode is not None
        self.collected = False

    def poll(self):
        if self.ended:
            self.collected = True
            self.returncode = self.code
        return self.returncode

    def terminate(self):
        self.stop()

    def kill(self):
        self.stop()

    def send_signal(self, sig):
        self.stop()

    def stop(self):
        if not self.ended:
            self.ended = True
            self.code = -15

    def wait(self, timeout=None):
        if not self.ended and not (self.stdout is None or self.stdout.closed):
            # blocked on a pipe nobody reads
            raise TimeoutError
        self.stop()
        self.collected = True
        self.returncode = self.code
        return self.code

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read()
        err = self.stderr.read()
        self.stdout.close()
        self.stderr.close()
        self.wait()
        return out, err

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        if self.stdout is not None:
            self.stdout.close()
        if self.stderr is not None:
            self.stderr.close()
        self.wait()


class Zstd:
    def __init__(self, make, frame):
        self.make = make
        self.frame = frame

    def stream_reader(self, source, read_size=0, read_across_frames=False, closefd=True):
        fault('stream_reader')
        h = self.make()
        if not read_across_frames:
            h.frame = self.frame
        h.source = source if closefd else None
        return h


class Finalizer:
    """weakref.finalize"""

    def __init__(self, function, args, kwargs):
        self.function = function
        self.args = args
        self.kwargs = kwargs
        self.alive = True
        self.atexit = True

    def __call__(self, _=None):
        if self.alive:
            self.alive = False
            return self.function(*self.args, **self.kwargs)
        return None

    def detach(self):
        if self.alive:
            self.alive = False
            return (None, self.function, self.args, self.kwargs)
        return None


class Stat:
    def __init__(self, size):
        self.st_size = size


def operations(f, ops):
    """what a caller sees of a stream"""
    out = []
    for op, args in ops:
        try:
            if op == 'read':
                out.append(f.read(*args))
            elif op == 'seek':
                out.append(f.seek(*args))
            else:
                out.append(f.tell())
        except OSError:
            out.append('refused')
    return out


class Forward:
    """a stream of bytes that cannot go back"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def read(self, size=-1):
        rest = len(self.data) - self.pos
        if size < 0 or size > rest:
            size = rest
        b = self.data[self.pos:self.pos + size]
        self.pos += size
        return b

    def seek(self, offset, whence=0):
        if whence == 0:
            target = offset
        elif whence == 1:
            target = self.pos + offset
        else:
            raise OSError
        if target < self.pos:
            raise OSError
        if target > len(self.data):
            target = len(self.data)
        self.pos = target
        return target

    def tell(self):
        return self.pos


def forward(data, ops):
    return operations(Forward(data), ops)


def gzip_marker(data):
    return data[:2] == b'\x1f\x8b'


def zstd_marker(data):
    return data[:4] == b'\x28\xb5\x2f\xfd'


def eventio_marker(data):
    """plain: the decompressed content"""
    return data[:4] == b'\x37\x8a\x1f\xd4' or data[:4] == b'\xd4\x1f\x8a\x37'
