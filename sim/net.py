"""Stand-ins for the operating system: TCP sockets, serial ports and clocks.

install() has to run before elgas is imported.  Outside a run the stand-ins refuse to do anything,
so nothing here can reach a real network or a real port."""
import datetime as _datetime
import errno
import io as _io
import os as _os
import random
import selectors as _selectors
import socket as _socket
import termios as _termios
import time as _time

import serial as _serial

from . import kernel as _kernel

MSG_WAITALL, MSG_DONTWAIT, MSG_PEEK = (int(_socket.MSG_WAITALL), int(_socket.MSG_DONTWAIT),
                                       int(_socket.MSG_PEEK))
_DATETIME = _datetime.datetime
EPOCH = 1.7e9              # the simulated wall clock's start
STRICT = bool(_os.environ.get("ELGAS_SIM_STRICT"))   # errors of the model of the device end the run
WORLD = None  # the world of the run in progress


def world():
    if WORLD is None:
        raise RuntimeError("no simulation in progress")
    return WORLD


class World:
    """All links and devices of one run."""

    def __init__(self, kernel):
        self.k = kernel
        self.places = {}       # ("tcp", host, port) / ("serial", port) -> device
        self.links = []
        self.open_handles = 0
        self.opened = 0
        self.wrong_places = []
        self.by_task = {}
        self.plan = OpPlan({})
        self.entropy = random.Random("entropy")

    def opplan(self):
        if self.k.sched is not None and self.k.sched.cur is not None:
            return self.by_task.get(self.k.sched.cur["name"], self.plan)
        return self.plan


class OpPlan:
    """What the network does during one operation of the client, from the scenario."""

    def __init__(self, op, index=0):
        self.op = op
        self.index = index
        self.calls = {}
        self.faults = list(op.get("f", ()))
        self.rng = random.Random("%s/net" % (op.get("s", 0),))
        self.frag, self.gap = op.get("sch", (0, 0))
        self.requests = 0
        self.sent_at = None

    def hit(self, method):
        n = self.calls.get(method, 0)
        self.calls[method] = n + 1
        for f in self.faults:
            if f["m"] == method and f["n"] == n:
                return f
        return None


class Link:
    """One connection: a byte stream each way.  Order within a direction is kept."""

    def __init__(self, world, device, timeout_us):
        self.w, self.k, self.device = world, world.k, device
        self.T = timeout_us
        self.rx = bytearray()          # arrived at the client, not read yet
        self.read_pos = 0              # bytes the client has read
        self.skip = (0, 0)             # entries of the log, and their bytes, that were read long ago
        self.log = []                  # (arrival time, bytes | "eof" | "rst") in order
        self.arrived = 0               # entries of log that have arrived
        self.end = None                # "eof"/"rst" once arrived
        self.free_at = 0               # device -> client: next byte can not arrive before
        self.in_free_at = 0
        self.sent = bytearray()        # everything the client wrote
        self.partial = bytearray()     # device side line buffer
        self.closed = False
        self.deaf = False              # the device can make nothing of what it hears
        self.broken = None
        self.ops = []                  # (op index, log length, read_pos) at the start of each op
        world.links.append(self)

    # client -> device
    def to_device(self, data, plan):
        self.sent += data
        k = self.k
        if plan.sent_at is None:
            plan.sent_at = k.now
        for chunk, gap in fragments(bytes(data), plan, self.T, total=0.15):
            t = max(k.now, self.in_free_at) + gap
            self.in_free_at = t
            k.at(t, lambda c=chunk: self._device_gets(c, plan))

    def _device_gets(self, chunk, plan):
        if self.closed:
            return
        self.partial += chunk
        while True:
            i = self.partial.find(b"\r")
            if i < 0:
                return
            line = bytes(self.partial[:i + 1])
            del self.partial[:i + 1]
            if self.deaf:
                continue
            try:
                self.device.on_line(self, line, plan)
            except Exception as e:
                # something the model of the device was not made for (it does not happen with
                # the code as it is): it stays silent, as an instrument would
                if STRICT:
                    raise _kernel.SimAbort("the device failed: %r" % e) from e
                self.k.fault("device_silent_on_odd_request")

    # device -> client
    def emit(self, data, delay, plan):
        """Queue bytes, or "eof"/"rst", after a delay in microseconds."""
        t = max(self.k.now, self.free_at) + delay
        if isinstance(data, str):
            self._queue(t, data)
            self.free_at = t
            return
        for chunk, gap in fragments(bytes(data), plan, self.T, limit=0.6):
            t += gap
            self._queue(t, chunk)
        self.free_at = t

    def _queue(self, t, what):
        self.log.append((t, what))
        self.k.at(t, self._arrive)

    def _arrive(self):
        t, what = self.log[self.arrived]
        self.arrived += 1
        if self.closed or self.end:
            return
        if isinstance(what, str):
            self.end = what
            self.k.fault("peer_" + what)
        else:
            self.rx += what
        self.k.note("<%s" % (what if isinstance(what, str) else len(what)))


def fragments(data, plan, T, limit=0.0, total=None):
    """Cut data into segments, with a gap before each. No gap reaches limit * T, or they do not
    add up to total * T."""
    rng = plan.rng
    if not data:
        return []
    if plan.frag == 0 or len(data) == 1:
        cuts = [len(data)]
    elif plan.frag == 2:
        cuts = list(range(1, len(data) + 1))
    else:
        n = min(len(data) - 1, rng.randint(1, 5))
        cuts = sorted(rng.sample(range(1, len(data)), n)) + [len(data)]
    out, p = [], 0
    big = min(1.0, 6.0 / len(cuts))
    if total is not None:
        big, limit = 1.0, total / len(cuts)
    for c in cuts:
        if plan.gap == 0:
            g = 0
        elif plan.gap == 1:
            g = rng.randrange(0, 3000)
        elif rng.random() < big:
            g = int(rng.random() * limit * T)
        else:
            g = rng.randrange(0, 200)
        out.append((data[p:c], g))
        p = c
    return out


def _link_place(place):
    w = world()
    dev = w.places.get(place)
    if dev is None:
        w.wrong_places.append(place)
    return dev


class Alarm(Exception):
    """What a signal handler of the user raises."""


INTERRUPTS = ("kbd", "kbd", "mem", "alarm")      # can come at any point
ERRS = {
    "reset": lambda: ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"),
    "pipe": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
    "timeout": lambda: _socket.timeout("timed out"),
    "oserr": lambda: OSError(errno.EIO, "Input/output error"),
    "unreach": lambda: OSError(errno.EHOSTUNREACH, "No route to host"),
    "nobufs": lambda: OSError(errno.ENOBUFS, "No buffer space available"),
    "aborted": lambda: ConnectionAbortedError(errno.ECONNABORTED, "Software caused connection abort"),
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
    "gai": lambda: _socket.gaierror(-2, "Name or service not known"),
    "enotconn": lambda: OSError(errno.ENOTCONN, "Transport endpoint is not connected"),
    "mfile": lambda: OSError(errno.EMFILE, "Too many open files"),
    "kbd": lambda: KeyboardInterrupt(),
    "mem": lambda: MemoryError(),
    "alarm": lambda: Alarm("time is up"),
    "serial": lambda: _serial.SerialException("device reports readiness to read but returned no data"),
    "swrite": lambda: _serial.SerialTimeoutException("Write timeout"),
    "noport": lambda: FileNotFoundError(errno.ENOENT, "No such file or directory"),
    "perm": lambda: PermissionError(errno.EACCES, "Permission denied"),
}
for _e in ("ETIMEDOUT", "EHOSTDOWN", "ENETDOWN", "ENETUNREACH", "ENETRESET", "ENOTCONN", "EBADF",
           "EINVAL", "ENOMEM", "EADDRNOTAVAIL", "EACCES", "EPERM", "ENXIO", "ENODEV", "EBUSY", "EIO",
           "ENOTTY", "EPROTO", "ENONET", "ECONNABORTED", "ESHUTDOWN"):
    ERRS[_e] = lambda e=_e: OSError(getattr(errno, e), _os.strerror(getattr(errno, e)))
ERRS["gai again"] = lambda: _socket.gaierror(-3, "Temporary failure in name resolution")
ERRS["gai nodata"] = lambda: _socket.gaierror(-5, "No address associated with hostname")
ERRS["herror"] = lambda: _socket.herror(1, "Unknown host")
ERRS["sopen"] = lambda: _serial.SerialException(16, "could not open port: Device or resource busy")
ERRS["idna"] = lambda: UnicodeError("label empty or too long")
ERRS["termios"] = lambda: _termios.error(errno.EIO, "Input/output error")
ERRS["sclosed"] = lambda: _serial.PortNotOpenError()
STICKY = {"reset", "pipe", "aborted", "eof", "serial"}


class _Endpoint:
    """What sockets and serial ports share."""

    _link = None
    _open = False

    def _attach(self, device):
        w = world()
        self._w, self._k = w, w.k
        self._link = Link(w, device, device.T if device is not None else 0)
        self._link.endpoint = self
        self._open = True
        self._rng = random.Random(w.opened)
        self._number = w.opened
        w.opened += 1
        w.open_handles += 1

    def _detach(self):
        if self._open:
            self._open = False
            self._link.closed = True
            self._w.open_handles -= 1

    def fileno(self):
        return 1000 + self._number if self._open else -1

    def _enter(self, method):
        w = world()
        w.k.enter(method)
        plan = w.opplan()
        return w, plan, plan.hit(method)

    def _raise(self, f):
        w = world()
        w.k.fault("%s_%s" % (f["m"], f["k"]))
        if f["k"] in STICKY and self._link is not None:
            self._link.broken = f["k"]
        raise ERRS[f["k"]]()

    def _write(self, data):
        w, plan, f = self._enter("send")
        data = bytes(data)
        self._check_open()
        if self._link.broken and self._link.broken != "eof":
            raise ERRS["pipe" if self._kind == "tcp" else "serial"]()
        if self._link.end == "rst":
            raise ERRS["pipe"]()
        if f:
            part = int(len(data) * f.get("part", 0))
            if part:
                w.k.fault("send_partial")
                self._link.to_device(data[:part], plan)
            if f["k"] in ("timeout", "swrite"):      # the line does not take (the rest of) it
                limit = self._timeout if self._kind == "tcp" else self.write_timeout
                w.k.wait(lambda: False,
                         None if limit is None else w.k.now + int(limit * _kernel.US))
            self._raise(f)
        self._link.to_device(data, plan)
        return len(data)


class FakeSocket(_Endpoint):
    _kind = "tcp"
    family, type, proto = _socket.AF_INET, _socket.SOCK_STREAM, 0

    def __init__(self, *args, **kw):
        self._timeout = None
        self._addr = None

    # -- connecting
    def connect(self, address):
        w, plan, f = self._enter("connect")
        if f:
            if f["k"] == "timeout" and self._timeout != 0:    # without a timeout: the system's
                t = 127 if self._timeout is None else self._timeout
                w.k.wait(lambda: False, w.k.now + int(t * _kernel.US))
            self._raise(f)
        dev = _link_place(("tcp", address[0], address[1]))
        if dev is None:
            raise ERRS["refused"]()
        self._addr = tuple(address)
        self._attach(dev)

    def _check_open(self):
        if not self._open:
            raise OSError(errno.EBADF if self._addr else errno.ENOTCONN, "Bad file descriptor")

    # -- data
    def recv(self, n, flags=0):
        w, plan, f = self._enter("recv")
        self._check_open()
        link = self._link
        if f:
            if f["k"] == "eof":
                w.k.fault("recv_eof")
                link.broken = "eof"
            elif f["k"] == "timeout" and self._timeout:
                w.k.wait(lambda: False, w.k.now + int(self._timeout * _kernel.US))
                self._raise(f)
            else:
                self._raise(f)
        if link.broken:
            if link.broken == "eof":
                w.k.tick_idle(True)
                return b""
            raise ERRS["reset"]()
        n_min = n if flags & MSG_WAITALL and self._timeout != 0 else 1
        ready = lambda: len(link.rx) >= n_min or link.end or not self._open
        if not ready():
            t = self._timeout
            if t == 0 or flags & MSG_DONTWAIT:
                w.k.tick_idle(True)
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            w.k.wait(ready, None if t is None else w.k.now + int(t * _kernel.US))
        if link.rx:
            w.k.tick_idle(False)
            out = bytes(link.rx[:n])
            if not flags & MSG_PEEK:
                del link.rx[:n]
                link.read_pos += len(out)
            return out
        if link.end == "rst":
            w.k.tick_idle(True)
            raise ERRS["reset"]()
        if link.end == "eof":
            w.k.tick_idle(True)
            return b""
        raise _socket.timeout("timed out")

    def makefile(self, mode="r", buffering=None, **kw):
        import io
        raw = _SocketFile(self)
        if buffering == 0:
            return raw
        size = buffering if buffering and buffering > 0 else io.DEFAULT_BUFFER_SIZE
        if "w" in mode:
            return io.BufferedRWPair(raw, raw, size) if "r" in mode else io.BufferedWriter(raw, size)
        return io.BufferedReader(raw, size)

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def sendall(self, data, flags=0):
        self._write(data)

    def send(self, data, flags=0):
        data = bytes(data)
        n = len(data) if len(data) < 2 else self._rng.randint(1, len(data))
        self._write(data[:n])
        return n

    # -- closing
    def shutdown(self, how):
        w, plan, f = self._enter("shutdown")
        self._check_open()
        if f:
            self._raise(f)
        if self._link.end == "rst" or self._link.broken in ("reset", "pipe", "aborted"):
            raise ERRS["enotconn"]()

    def close(self):
        if not self._open:
            return
        w, plan, f = self._enter("close")
        self._detach()
        if f:
            self._raise(f)

    def detach(self):
        self.close()
        return -1

    # -- the rest of the interface
    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        self._check_open()
        return self._addr

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _SocketFile(_io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    writable = readable

    def readinto(self, b):
        return self.sock.recv_into(b)

    def write(self, b):
        return self.sock.send(b)


def create_connection(address, timeout=None, source_address=None, **kw):
    s = FakeSocket()
    s.settimeout(timeout)
    s.connect(address)
    return s


class FakeSerial(_Endpoint):
    _kind = "serial"

    def __init__(self, port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None,
                 xonxoff=False, rtscts=False, write_timeout=None, dsrdtr=False,
                 inter_byte_timeout=None, exclusive=None, **kw):
        self.port, self.baudrate, self.timeout = port, baudrate, timeout
        self.bytesize, self.parity, self.stopbits = bytesize, parity, stopbits
        self.write_timeout, self.inter_byte_timeout = write_timeout, inter_byte_timeout
        self.xonxoff, self.rtscts, self.dsrdtr, self.exclusive = xonxoff, rtscts, dsrdtr, exclusive
        if port is not None:
            self.open()

    @property
    def is_open(self):
        return self._open

    isOpen = lambda self: self._open

    @property
    def name(self):
        return self.port

    def open(self):
        w, plan, f = self._enter("connect")
        if self._open:
            raise _serial.SerialException("Port is already open.")
        if f:
            self._raise(f)
        dev = _link_place(("serial", self.port))
        if dev is None:
            raise _serial.SerialException("could not open port %s" % (self.port,))
        line = (self.baudrate, self.bytesize, self.parity, self.stopbits, bool(self.xonxoff))
        if line != (getattr(dev, "baud", self.baudrate), 8, "N", 1, False):
            w.wrong_places.append(("baud",) + line)
        self._attach(dev)
        self._link.deaf = bool(w.wrong_places) and w.wrong_places[-1] == ("baud",) + line

    def _check_open(self):
        if not self._open:
            raise _serial.PortNotOpenError()

    def read(self, size=1):
        w, plan, f = self._enter("recv")
        self._check_open()
        link = self._link
        if f:
            if f["k"] == "timeout" or f["k"] == "eof":
                w.k.fault("recv_timeout")
                if self.timeout:
                    w.k.wait(lambda: False, w.k.now + int(self.timeout * _kernel.US))
                else:
                    w.k.tick_idle(True)
                return b""
            self._raise(f)
        if link.broken:
            raise ERRS["serial"]()
        t = self.timeout
        deadline = None if t is None else w.k.now + int(t * _kernel.US)
        began = w.k.now
        ready = lambda: len(link.rx) >= size or not self._open or link.end == "rst"
        if not ready():
            w.k.wait(ready, deadline)
        if link.end == "rst" and not link.rx:
            w.k.tick_idle(True)
            raise ERRS["serial"]()
        w.k.tick_idle(not link.rx and w.k.now - began < 10)
        out = bytes(link.rx[:size])
        del link.rx[:size]
        link.read_pos += len(out)
        return out

    def read_until(self, expected=b"\n", size=None):
        line = bytearray()
        while True:
            c = self.read(1)
            if not c:
                break
            line += c
            if line.endswith(expected) or (size is not None and len(line) >= size):
                break
        return bytes(line)

    def readline(self, size=-1):
        return self.read_until(b"\n", None if size < 0 else size)

    def read_all(self):
        return self.read(self.in_waiting)

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = data
        return len(data)

    def write(self, data):
        return self._write(data)

    def flush(self):
        self._check_open()

    def reset_input_buffer(self):
        self._check_open()
        self._link.read_pos += len(self._link.rx)
        self._link.rx.clear()

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        self._check_open()

    flushOutput = reset_output_buffer

    @property
    def in_waiting(self):
        self._k.enter("in_waiting")
        self._check_open()
        return len(self._link.rx)

    inWaiting = lambda self: self.in_waiting
    out_waiting = 0

    def close(self):
        if not self._open:
            return
        w, plan, f = self._enter("close")
        self._detach()
        if f:
            self._raise(f)

    def readable(self):
        return True

    writable = readable

    def __enter__(self):
        if not self._open:
            self.open()
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------- installation
_real = {}


def _clock(name):
    real = getattr(_time, name)
    _real[name] = real
    start = EPOCH if name == "time" else 0

    def now():
        return real() if WORLD is None else WORLD.k.client_time() + start

    now.__name__ = name
    return now


def _clock_ns(name):
    real = getattr(_time, name)
    _real[name] = real
    start = int(EPOCH * 1e9) if name == "time_ns" else 0

    def now():
        return real() if WORLD is None else int(WORLD.k.client_time() * 1e9) + start

    return now


def _sleep(seconds):
    if WORLD is None:
        return _real["sleep"](seconds)
    WORLD.k.sleep(seconds)


def real(name):
    return _real[name]


def _urandom(n):
    """The system's randomness, seeded during a run."""
    return _real["urandom"](n) if WORLD is None else WORLD.entropy.randbytes(n)


def _select(rl, wl, xl, timeout=None):
    """select.select for simulated endpoints."""
    if WORLD is None or not all(isinstance(x, _Endpoint) for x in list(rl) + list(wl) + list(xl)):
        return _real["select"](rl, wl, xl, timeout)
    k = WORLD.k
    k.enter("select")

    def readable(x):
        return x._link is None or x._link.rx or x._link.end or x._link.broken or not x._open
    for x in rl:
        x._check_open()
    if not wl and not any(readable(x) for x in rl):
        if timeout == 0:
            k.tick_idle(True)
        else:
            k.wait(lambda: any(readable(x) for x in rl),
                   None if timeout is None else k.now + int(timeout * _kernel.US))
    return [x for x in rl if readable(x)], list(wl), []


class Selector(_selectors._BaseSelectorImpl):
    """selectors.DefaultSelector and its relatives."""

    def select(self, timeout=None):
        keys = list(self._fd_to_key.values())
        if timeout is not None and timeout < 0:
            timeout = 0
        r, w, _ = _select([k.fileobj for k in keys if k.events & _selectors.EVENT_READ],
                          [k.fileobj for k in keys if k.events & _selectors.EVENT_WRITE], [], timeout)
        out = []
        for k in keys:
            ev = (_selectors.EVENT_READ if k.fileobj in r else 0) | (
                _selectors.EVENT_WRITE if k.fileobj in w else 0)
            if ev:
                out.append((k, ev))
        return out


class Poll:
    """select.poll, select.epoll"""

    def __init__(self, scale=1000, *a, **kw):
        self._scale, self._on = scale, {}

    def register(self, x, events=0x3):
        self._on[x] = events

    modify = register

    def unregister(self, x):
        del self._on[x]

    def poll(self, timeout=None, *a):
        if timeout is not None:
            timeout = None if timeout < 0 else timeout / self._scale
        r, w, _ = _select([x for x, e in self._on.items() if e & 1],
                          [x for x, e in self._on.items() if e & 4], [], timeout)
        return [(x.fileno(), (1 if x in r else 0) | (4 if x in w else 0)) for x in self._on
                if x in r or x in w]

    def close(self):
        self._on.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Any(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _DATETIME)


class SimDateTime(_DATETIME, metaclass=_Any):
    """datetime whose present is the simulated one."""

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_time.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_time.time(), _datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(_time.time())


SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
SimDateTime.__module__ = "datetime"


def _present(name):
    real = getattr(_time, name)
    _real[name] = real

    def now(t=None):
        return real(_time.time() if t is None else t)

    return now


def timezone(tz):
    """The time zone of the host, as in TZ."""
    if tz != _os.environ.get("TZ"):
        if tz is None:
            del _os.environ["TZ"]
        else:
            _os.environ["TZ"] = tz
        _time.tzset()


def install():
    if _real:
        return
    for n in ("localtime", "gmtime", "ctime"):
        setattr(_time, n, _present(n))
    _datetime.datetime = SimDateTime
    for n in ("monotonic", "time", "perf_counter"):
        setattr(_time, n, _clock(n))
        setattr(_time, n + "_ns", _clock_ns(n + "_ns"))
    _real["sleep"] = _time.sleep
    _time.sleep = _sleep
    _socket.create_connection = create_connection
    _socket.socket = FakeSocket
    _serial.Serial = FakeSerial
    _real["urandom"] = _os.urandom
    _os.urandom = random._urandom = _urandom
    import select
    _real["select"] = select.select
    select.select = _select
    select.poll = Poll
    select.epoll = lambda *a, **kw: Poll(1)
    for n in ("DefaultSelector", "SelectSelector", "PollSelector", "EpollSelector"):
        setattr(_selectors, n, Selector)
    _kernel.install_locks()
