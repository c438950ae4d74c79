"""Generators that run in steps: each has its own thread of analysis, of which one runs at a time.

The abstract state is handed over when a generator delivers and when it is asked for more.  Only for
analyses of a single path (Interp.lazy): a generator cannot be copied when the path forks.
"""
import threading
from .terms import *
from .terms import Undecidable
from . import interp as IN

STACKS = ('frames', 'rets', 'brks', 'conts', 'raises', 'stack', 'sites', 'depth', 'node', 'coro')


class Stop(BaseException):
    pass


class Coroutine:
    def __init__(self, I, frames, body):
        self.I, self.body = I, body
        self.own = {'frames': list(frames), 'rets': [[]], 'brks': [], 'conts': [], 'raises': [[]], 'stack': list(I.stack),
                    'sites': list(I.sites), 'depth': 0, 'node': I.node, 'coro': self}
        self.thread = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = self.running = self.kill = False
        self.steps = 0
        self.msg = None
        self.state = None

    def swap(self):
        I = self.I
        other = {k: getattr(I, k) for k in STACKS}
        for k, v in self.own.items():
            setattr(I, k, v)
        self.own = other

    # ------------------------------------------------------------- in the thread of the generator
    def run(self):
        self.go.acquire()
        try:
            if self.kill:
                return
            st = IN.State(self.state.heap, self.state.pc)
            I = self.I
            try:
                self.body(st)
                self.msg = ('return', st)
            except IN.Dead:
                rets = [r for r in I.rets[-1] if r[0].pc is not FALSE]
                caught = [r for r in I.raises[-1] if r[0].pc is not FALSE]
                if len(rets) == 1 and not caught:
                    self.msg = ('return', rets[0][0])
                elif len(caught) == 1 and not rets:
                    self.msg = ('raise', caught[0][0], caught[0][1])
                else:
                    self.msg = ('error', Undecidable('a generator with several outcomes'))
        except Stop:
            self.msg = ('stopped',)
        except BaseException as e:
            self.msg = ('error', e)
        finally:
            self.done = True
            self.back.release()

    def deliver(self, st, v):
        self.msg = ('yield', st.snap(), v)
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Stop
        st.become(self.state)

    # ------------------------------------------------------------- in the thread of the consumer
    def switch(self):
        self.running = True
        self.swap()
        try:
            if self.thread is None:
                old = threading.stack_size(128 << 20)
                self.thread = threading.Thread(target=self.run, daemon=True)
                self.thread.start()
                threading.stack_size(old)
            self.go.release()
            self.back.acquire()
        finally:
            self.swap()
            self.running = False

    def resume(self, st):
        I = self.I
        if self.running:
            I.throw(st, I.exc('ValueError', C('generator already executing')))
        if self.done:
            I.throw(st, I.exc('StopIteration'))
        self.state = st.snap()
        self.steps += 1
        self.switch()
        how = self.msg[0]
        if how == 'error':
            raise self.msg[1]
        st.become(self.msg[1])
        if how == 'yield':
            return self.msg[2]
        if how == 'return':
            I.throw(st, I.exc('StopIteration'))
        e = self.msg[2]
        if I.exc_match(st, e, IN.ext('StopIteration')) is TRUE:
            e = I.exc('RuntimeError', C('generator raised StopIteration'))
        I.throw(st, e)

    def stop(self):
        if self.thread is not None and not self.done:
            self.kill = True
            self.switch()


def make(I, st, frames, body):
    """object of a generator"""
    c = Coroutine(I, frames, body)
    I.coros.append(c)
    cls = I.lookup_qual('spec.runtime', 'Generator')
    return I.instantiate(st, cls, [C(len(I.coros) - 1), ZERO], {})


def resume(I, st, args, kw):
    c = I.coros[cv(args[0])]
    if not is_c(args[1]) or cv(args[1]) != c.steps:
        raise Undecidable('a generator is used on several paths')
    return c.resume(st)


def stop_all(I):
    for c in I.coros:
        c.stop()
    del I.coros[:]
