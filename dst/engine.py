"""The scheduler and fault injector.

Every executed line of the code under test and every call it makes into numpy/scipy/the console is an
event (sys.monitoring, local to the code objects of /repo).  At an event the engine may
 - hand the baton to another simulated thread (real threads, parked; exactly one runs at any time),
 - raise an injected exception: an interrupt at a line, or a failure of the library call.
What happens at which event is given by the plan; nothing else is consulted."""
import dis
import hashlib
import io
import sys
import threading as _threading
import types
from _thread import get_ident

import numpy as np

from . import world as _world

MON = sys.monitoring
TOOL = 3
EV_LINE, EV_CALL = MON.events.LINE, MON.events.CALL


class SimCancel(BaseException):
    """an interruption of the running call (as KeyboardInterrupt or a killed thread)"""


class SimCrash(BaseException):
    """death of the simulated process"""


class SimMemoryError(MemoryError):
    """injected allocation failure"""


class SimFPE(FloatingPointError):
    """injected floating point failure"""


EXC = {'mem': SimMemoryError, 'fpe': SimFPE, 'int': SimCancel, 'kbd': KeyboardInterrupt}

_ND = np.ndarray
_BI = type(len)
_MD = type(list.append)
_WD = type(np.ndarray.__add__)
_ext_cache = {}


def _root(m):
    return m is not None and m.split('.', 1)[0] in ('numpy', 'scipy')


def is_external(f):
    """a call that leaves the code under test for numpy/scipy (may allocate, hence fail)"""
    t = type(f)
    if t is np.ufunc:
        return True
    if t is types.FunctionType:
        r = _ext_cache.get(f)
        if r is None:
            r = _ext_cache[f] = _root(f.__module__)
            if len(_ext_cache) > 5000:
                _ext_cache.clear()
        return r
    if t is _BI:
        s = f.__self__
        return isinstance(s, (_ND, np.generic)) or _root(f.__module__)
    if t is _MD:
        return f.__objclass__ in (_ND, np.ufunc, np.generic)
    return False


_OP = dis.opmap


def _no_interrupt(frame):
    """the interpreter itself never takes an interrupt here: entering a handler, leaving it, or about to call the __exit__ of a `with`"""
    c, i = frame.f_code.co_code, frame.f_lasti
    op = c[i]
    if op == _OP['PUSH_EXC_INFO'] or op == _OP['WITH_EXCEPT_START']:
        return True
    while c[i] in (_OP['SWAP'], _OP['NOP']) and i + 8 < len(c):
        i += 2
    if c[i] == _OP['POP_EXCEPT']:
        return True
    return (c[i] == _OP['LOAD_CONST'] and c[i:i + 2] == c[i + 2:i + 4] == c[i + 4:i + 6] and c[i + 6:i + 8] == bytes([_OP['CALL'], 2]))


class Guard:
    """arrays which nobody may change: looks at them at every event"""
    def __init__(self, arrays):
        self.a = [(a, a.copy(), a.tobytes()) for a in arrays if isinstance(a, np.ndarray)]
        self.bad = None
        self.looks = 0

    def __call__(self, where, line):
        self.looks += 1
        if self.bad is None:
            for a, b, c in self.a:
                if a.tobytes() != c:
                    self.bad = '%s at %s:%s: %s instead of %s' % ('seen', getattr(where, 'co_name', where), line, str(a)[:80], str(b)[:80])
                    return


class Engine:
    def __init__(self):
        self.on = False
        self.reset()

    def reset(self):
        self.mode = None
        self.ident = None
        self.lines = self.calls = self.steps = 0
        self.cancel_at = self.fault_at = -1
        self.exc = None
        self.fired = None          # (kind, where) of the injected exception
        self.total_lines = getattr(self, 'total_lines', 0)
        self.total_calls = getattr(self, 'total_calls', 0)
        self.sim = None
        self.watch = None

    # --- instrumentation of the code under test
    def install(self):
        if self.on:
            return
        MON.use_tool_id(TOOL, 'dst')
        MON.register_callback(TOOL, EV_LINE, self._line)
        MON.register_callback(TOOL, EV_CALL, self._call)
        for c in _world.all_codes():
            MON.set_local_events(TOOL, c, EV_LINE | EV_CALL)
        self.on = True
        self.seen_lines = set()

    def _line(self, code, line):
        if self.mode is None or get_ident() != self.ident:
            return
        self.lines += 1
        self.seen_lines.add((code.co_filename, line))
        if self.watch is not None:
            self.watch(code, line)
        if self.lines == self.cancel_at and _no_interrupt(sys._getframe(1)):
            self.cancel_at += 1
        if self.lines == self.cancel_at:
            self.fired = ('cancel', '%s:%d' % (code.co_name, line))
            self.cancel_at = -1
            raise self.exc('injected')
        if self.sim is not None:
            self.sim._event(code.co_name, line)
            if self.sim.kill is not None:
                if _no_interrupt(sys._getframe(1)):
                    t = self.sim.cur
                    t.kills[t.n + 1], self.sim.kill = self.sim.kill, None
                else:
                    self._kill(code, '%d' % line, EXC[self.sim.kill])

    def _call(self, code, off, f, a0):
        if self.mode is None or get_ident() != self.ident:
            return
        if not is_external(f):
            return
        self.calls += 1
        if self.calls == self.fault_at:
            self.fired = ('fault', '%s>%s' % (code.co_name, getattr(f, '__name__', '?')))
            self.fault_at = -1
            raise self.exc('injected')
        if self.sim is not None:
            self.sim._event(code.co_name, -off)
            if self.sim.kill is not None:
                self._kill(code, getattr(f, '__name__', '?'), SimMemoryError)

    def _kill(self, code, where, exc):
        sim = self.sim
        sim.kill = None
        sim.killed.append((sim.cur.i, '%s:%s' % (code.co_name, where)))
        raise exc('injected')

    # --- one call on the current thread, with at most one injection
    def call(self, fn, cancel_at=-1, fault_at=-1, exc='mem', watch=None):
        """runs fn(); returns (outcome, value, lines, calls, fired); `watch` looks on before every line"""
        self.install()
        self.mode, self.ident = 'serial', get_ident()
        self.lines = self.calls = 0
        self.cancel_at, self.fault_at, self.exc, self.fired = cancel_at, fault_at, EXC[exc], None
        self.sim = None
        self.watch = watch
        try:
            try:
                v = fn()
                out = 'ok'
            finally:
                self.mode = self.watch = None
        except (Exception, SimCancel, KeyboardInterrupt) as e:
            if self.fired is None and isinstance(e, KeyboardInterrupt):
                raise
            v, out = e, 'exc'
            e.__traceback__ = None
        self.total_lines += self.lines
        self.total_calls += self.calls
        return out, v, self.lines, self.calls, self.fired

    # --- several simulated threads
    def threads(self, fns, switches, kills=(), trace=False, watch=None):
        """kills: [thread, n, exception]: what is raised in the thread at its n-th event; `watch` looks on at every switch"""
        self.install()
        sim = Sim(self, fns, switches, kills, trace)
        sim.watch = watch
        self.mode, self.sim = 'threads', sim
        self.lines = self.calls = 0
        self.cancel_at = self.fault_at = -1
        try:
            sim.run()
        finally:
            self.mode, self.sim = None, None
        self.total_lines += self.lines
        self.total_calls += self.calls
        return sim


class _T:
    __slots__ = ('i', 'fn', 'go', 'state', 'thread', 'ident', 'out', 'waits', 'n', 'kills')


class Deadlock(BaseException):
    pass


class Sim:
    """baton-passing scheduler: `switches` is a list of [gap, choice]: after `gap` events the baton goes to
    the choice-th other runnable thread (cyclically)."""
    WATCHDOG = 100.0

    def __init__(self, eng, fns, switches, kills=(), trace=False):
        self.eng = eng
        self.kill = None            # exception due in the thread holding the baton
        self.killed = []
        self.trace = [] if trace else None
        self.sw = [tuple(s) for s in switches]
        self.pos = 0
        self.left = self.sw[0][0] if self.sw else -1
        self.T = []
        self.h = hashlib.sha1()
        self.nswitch = 0
        self.deadlock = False
        self.hung = False
        self.watch = None
        self.done = _threading.Semaphore(0)
        for i, fn in enumerate(fns):
            t = _T()
            t.i, t.fn, t.go, t.state, t.ident, t.out, t.waits = i, fn, _threading.Semaphore(0), 'ready', None, None, None
            t.n, t.kills = 0, {n: x for j, n, x in kills if j == i}
            t.thread = _threading.Thread(target=self._body, args=(t,), daemon=True)
            self.T.append(t)
        self.cur = None

    def run(self):
        old = np.geterr()
        for t in self.T:
            t.thread.start()
        self._give(self.T[0])
        if not self.done.acquire(timeout=self.WATCHDOG):
            self.hung = True
            return
        for t in self.T:
            if t.state != 'blocked':
                t.thread.join(10)

    def _give(self, t):
        self.cur = t
        self.eng.ident = t.thread.ident
        t.go.release()

    def _body(self, t):
        t.go.acquire()
        try:
            np.seterr(all='ignore')
            t.out = ('ok', t.fn())
        except Deadlock as e:
            self.deadlock = True
            t.out = ('exc', e)
        except BaseException as e:
            e.__traceback__ = None
            t.out = ('exc', e)
        t.state = 'done'
        r = [x for x in self.T if x.state == 'ready']
        if r:
            self._give(r[0])
        else:
            self.deadlock |= any(x.state == 'blocked' for x in self.T)
            self.eng.ident = None
            self.done.release()

    def _others(self, t):
        n = len(self.T)
        return [self.T[(t.i + k) % n] for k in range(1, n) if self.T[(t.i + k) % n].state == 'ready']

    def _event(self, name, line):
        t = self.cur
        t.n += 1
        if self.trace is not None:
            self.trace.append((name, line))
        if self.left >= 0:
            self.left -= 1
            if self.left <= 0:
                self._switch(t, name, line)
        self.kill = t.kills.pop(t.n, None) if t.kills else None

    def _switch(self, t, name, line):
        gap, choice = self.sw[self.pos]
        self.pos += 1
        self.left = self.sw[self.pos][0] if self.pos < len(self.sw) else -1
        o = self._others(t)
        if not o:
            return
        x = o[choice % len(o)]
        self.nswitch += 1
        if self.watch is not None:
            self.watch(name, line)
        self.h.update(('%d>%d@%s:%d;' % (t.i, x.i, name, line)).encode())
        self._give(x)
        t.go.acquire()

    # --- blocking primitives of the code under test (none today) go through here
    def block(self, t, why):
        t.state, t.waits = 'blocked', why
        o = [x for x in self.T if x.state == 'ready']
        if not o:
            self.deadlock = True
            self.eng.ident = None
            self.done.release()
            t.go.acquire()      # never released
        self._give(o[0])
        t.go.acquire()

    def current(self):
        return self.cur if (self.cur is not None and self.cur.thread.ident == get_ident()) else None


class SimLock:
    """replacement of threading.Lock/RLock inside the code under test"""
    def __init__(self, eng, reentrant):
        self.eng, self.re = eng, reentrant
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        while True:
            if self.owner is None or (self.re and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            sim = self.eng.sim
            t = sim.current() if sim is not None else None
            if t is None or (timeout is not None and timeout >= 0):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('lock never released')
            sim.block(t, self)

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            sim = self.eng.sim
            if sim is not None:
                for x in sim.T:
                    if x.state == 'blocked' and x.waits is self:
                        x.state = 'ready'

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


ENGINE = Engine()


_sim_threading = None


def sim_threading():
    global _sim_threading
    if _sim_threading is not None:
        return _sim_threading
    m = _sim_threading = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in _threading.__dict__.items() if not k.startswith('__')})
    m.Lock = lambda: SimLock(ENGINE, False)
    m.RLock = lambda: SimLock(ENGINE, True)
    return m


class Clock:
    """simulated clock behind `import time` of the code under test"""
    def __init__(self):
        self.now = 1.6e9
        self.script = None
        self.reads = []
        self.advanced = 0.0

    def time(self):
        if self.script:
            self.now = self.script.pop(0)
        self.reads.append(self.now)
        return self.now

    def sleep(self, s):
        self.now += s
        self.advanced += s

    def module(self):
        import time as _t
        m = types.ModuleType('time')
        m.__dict__.update({k: v for k, v in _t.__dict__.items() if not k.startswith('__')})
        for n in ('time', 'perf_counter', 'monotonic', 'process_time'):
            setattr(m, n, self.time)
        for n in ('time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
            setattr(m, n, lambda: int(self.time() * 1e9))
        m.sleep = self.sleep
        return m


class Console(io.TextIOBase):
    """simulated standard output; may fail at the n-th write"""
    def __init__(self):
        self.parts = []
        self.n = 0
        self.fail_at = -1
        self.fail_for = 0
        self.failed = 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at >= 0 and self.n > self.fail_at and (self.fail_for < 0 or self.n <= self.fail_at + self.fail_for):
            self.failed += 1
            raise OSError(28, 'No space left on device (simulated console)')
        if len(self.parts) < 10000:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)
