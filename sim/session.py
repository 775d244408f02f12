"""Runs a scenario against the real client, and predicts what the client may answer.

The prediction uses only the bytes the simulated line delivered and the protocol's rules (proto.py):
the received stream is cut at every end character, and each line either has one meaning, may be
ignored, or has to be ignored."""
import datetime
import io
import logging
import os
import random
import sys
import traceback

from . import device as devmod
from . import kernel as kmod
from . import net, params, proto
from .kernel import US, Lines, SimAbort, SimHang

HOST, PORT, TTY = "meter.example", 8888, "/dev/ttySIM0"
CLIENT_OPS = ("read_time", "read_instantaneous_values", "read_parameters", "read_archive",
              "read_archive_by_time", "write_time")


def library():
    """The directory of the library's code."""
    return os.path.dirname(E.client.__file__) + os.sep


class Violation(Exception):
    def __init__(self, op, what, **kw):
        super().__init__(what)
        self.op, self.what, self.detail = op, what, kw


class E:
    """The code under test; imported late, after the stand-ins are in place."""
    ready = False

    @classmethod
    def load(cls):
        if cls.ready:
            return
        net.install()
        import structlog

        from elgas import application, client, connection, constants, exceptions, frames, state
        from elgas import security, transport, utils
        cls.security = security
        cls.application, cls.client, cls.connection = application, client, connection
        cls.constants, cls.exceptions, cls.frames = constants, exceptions, frames
        cls.state, cls.transport, cls.utils, cls.structlog = state, transport, utils, structlog
        cls.quiet()
        cls.ready = True

    @classmethod
    def quiet(cls):
        def drop(logger, name, event):
            raise cls.structlog.DropEvent
        cls.structlog.configure(processors=[drop], wrapper_class=cls.structlog.make_filtering_bound_logger(
            logging.CRITICAL), logger_factory=cls.structlog.ReturnLoggerFactory())

    @classmethod
    def loud(cls, sink):
        def take(logger, name, event):
            try:
                sink.append("%s %r" % (name, event))
                sink.append(" ".join("%s=%s" % (k, v) for k, v in event.items()))
            except SimHang:
                raise
            raise cls.structlog.DropEvent
        cls.structlog.configure(processors=[take], wrapper_class=cls.structlog.BoundLogger,
                                logger_factory=cls.structlog.ReturnLoggerFactory())


class OwnTransport:
    """A transport of the user's: one socket, and recv() returns whatever has arrived."""

    def __init__(self, host, port, timeout, error):
        self.address, self.timeout, self.error, self.socket = (host, port), timeout, error, None

    def __repr__(self):
        return "OwnTransport"

    def connect(self):
        if self.socket is not None:
            raise RuntimeError("already connected")
        try:
            self.socket = net.create_connection(self.address, self.timeout)
        except OSError as e:
            raise self.error("connect") from e

    def disconnect(self):
        s, self.socket = self.socket, None
        if s is None:
            return
        try:
            try:
                s.shutdown(2)
            finally:
                s.close()
        except OSError as e:
            raise self.error("disconnect") from e

    def send(self, data):
        if self.socket is None:
            raise RuntimeError("not connected")
        try:
            self.socket.sendall(data)
        except OSError as e:
            raise self.error("send") from e

    def recv(self):
        if self.socket is None:
            raise RuntimeError("not connected")
        try:
            data = self.socket.recv(4096)
        except OSError as e:
            raise self.error("receive") from e
        if not data:
            raise self.error("closed by peer")
        return data


class Nothing:
    """Where log records go that are only rendered."""

    def append(self, text):
        pass


class Outcome:
    __slots__ = ("kind", "value", "exc", "mro", "text", "matched")

    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc, self.matched = kind, value, exc, None
        self.mro = tuple(c.__name__ for c in type(exc).__mro__) if exc is not None else ()
        self.text = ("returned %s" % short(value)) if kind == "val" else (
            "raised %s: %s" % (type(exc).__name__, short(str(exc), 120)))

    @property
    def is_comm(self):
        return isinstance(self.exc, E.exceptions.CommunicationError)

    def __repr__(self):
        return self.text


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ allowed outcomes
class Allow:
    """A set of outcomes a call may have."""

    def __init__(self):
        self.items = []       # (kind, payload, end position)

    def add(self, kind, payload=None, pos=None):
        self.items.append((kind, payload, pos))

    def match(self, out):
        """-> (matched, why not / end position)"""
        why = []
        for kind, payload, pos in self.items:
            if kind == "any":
                return True, pos
            if out.kind == "val":
                if kind == "val":
                    bad = payload(out.value)
                    if bad is None:
                        out.matched = payload
                        return True, pos
                    why.append(bad)
            else:
                if kind == "anyexc":
                    return True, pos
                if kind == "comm" and out.is_comm:
                    return True, pos
                if kind == "exc" and set(payload) & set(out.mro):
                    return True, pos
        return False, "; ".join(why)

    def __str__(self):
        names = []
        for kind, payload, _ in self.items:
            n = {"val": "the device's answer", "comm": "CommunicationError", "any": "anything",
                 "anyexc": "an exception", "exc": ""}[kind]
            if kind == "exc":
                n = "/".join(payload)
            if n not in names:
                names.append(n)
        return " or ".join(names)


def dt(t, a=None):
    out = datetime.datetime(*t)
    if a and a.get("zone") is not None:      # a time as some zone's clock shows it: no conversion
        out = out.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=a["zone"])))
    if a and a.get("fold"):
        out = out.replace(fold=1)
    return out


def same(got, want):
    """The device got what it should. Times have no fractions there: the second it is in, or the
    nearest one."""
    if got == want:
        return True
    if not isinstance(want, list) or len(want) != 7:
        return False
    near = dt(want) + datetime.timedelta(microseconds=500000)
    return got in (want[:6], list(near.timetuple()[:6]))


# The names a user writes in code, in the order of the numbers the device knows them by.
ARCHIVES = ["EXTREME", "DATA", "BINARY", "DAILY", "MONTHLY", "SETTING", "FAST_1", "FAST_2", "STATUS",
            "BILLING", "GAS_COMPOSITION"]
PROTOCOLS = ["ELGAS2", "QMD", "RDS", "MODBUS"]


def archive_of(number, a):
    """The archive as a user names it. The library has the list twice."""
    home = E.application if a.get("amount", 0) % 4 == 3 else E.constants
    if not hasattr(home, "Archive"):
        home = E.constants
    return getattr(home.Archive, ARCHIVES[number])


def name_check(name, got, want):
    """An answer that names the archive or the protocol names the right one."""
    names = {"archive": ARCHIVES, "protocol": PROTOCOLS}.get(name)
    if names and hasattr(got, "name") and isinstance(want, int) and 0 <= want < len(names) \
            and got.name != names[want]:
        return "%s is named %s, number %d is %s" % (name, short(got.name), want, names[want])
    return None


def value_check(service, fields):
    def check(got):
        if service == proto.SVC["write_time"]:
            return None
        if service == proto.SVC["read_time"]:
            want = dt(fields["time"])
            if isinstance(got, datetime.datetime) and got == want:
                return None
            return "time is %s, the device said %s" % (short(got), want)
        for name, want in fields.items():
            if isinstance(want, list):
                want = dt(want)
            if not hasattr(got, name):
                return "answer %s has no %s" % (short(got), name)
            g = getattr(got, name)
            if isinstance(want, bytes) and isinstance(g, (bytes, bytearray, memoryview)):
                g = bytes(g)
            if g != want:
                return "%s is %s, the device said %s" % (name, short(g), short(want))
            bad = name_check(name, g, want)
            if bad:
                return bad
        return None
    return check


def objects_check(expected):
    def check(got):
        try:
            got = list(got)
        except TypeError:
            return "not a list of objects: %s" % short(got)
        if len(got) != len(expected):
            return "%d objects, the device has %d" % (len(got), len(expected))
        for i, (w, g) in enumerate(zip(expected, got)):
            bad = params.same(w, g)
            if bad:
                return "object %d: %s" % (i, bad)
        return None
    return check


def lines_of(link, pos, t0, T):
    """The lines the client can receive from stream position pos on, given that it waits at most T
    for anything to arrive. -> [(line, end position, old)]"""
    out, part = [], bytearray()
    last = t0
    start, at = link.skip if link.skip[1] <= pos else (0, 0)     # what was read long ago
    for n in range(start, len(link.log)):
        t, what = link.log[n]
        if isinstance(what, str):
            if at >= pos:
                break
            continue
        end = at + len(what)
        if end <= pos:
            at = end
            link.skip = n + 1, at
            continue
        chunk = what[pos - at:] if pos > at else what
        if t - last > T:
            break
        last = max(last, t)
        p = end - len(chunk)
        at = end
        while chunk:
            i = chunk.find(b"\r")
            if i < 0:
                part += chunk
                break
            part += chunk[:i + 1]
            p += i + 1
            out.append((bytes(part), p, t <= t0))
            part = bytearray()
            chunk = chunk[i + 1:]
    return out


def predict(name, first, lines, cipher, dev, own=False):
    """What the operation may do when it receives these lines.  With an own transport, what arrived
    together with an answer may be dropped."""
    svc = proto.SVC[name]
    allow = Allow()
    meanings = [proto.classify(l[0], cipher) for l in lines]

    def walk(j, acc, expected):
        while j < len(lines):
            _, pos, old = lines[j]
            certain, ms = meanings[j]
            decisive = certain and not old and not (own and name == "read_parameters")
            for m in ms:
                if m[0] == "undecodable":
                    allow.add("anyexc", None, pos)
                    decisive = False
                elif m[0] == "err":
                    if m[1] == svc:
                        allow.add("exc", m[2], pos)
                    else:
                        allow.add("anyexc", None, pos)
                        decisive = False
                elif m[1] != svc:
                    allow.add("anyexc", None, pos)
                    decisive = False
                else:
                    try:
                        f = proto.parse_response(svc, m[2])
                    except proto.Bad:
                        # an intact frame whose content makes no sense
                        allow.add("any", None, pos)
                        continue
                    if name != "read_parameters":
                        allow.add("val", value_check(svc, f), pos)
                    elif f["object_number"] != expected or not (f["object_amount"] or f["is_end"]):
                        allow.add("anyexc", None, pos)
                    else:
                        key = (f["object_number"], f["data"])
                        if key not in dev.pages or len(dev.pages[key]) != f["object_amount"]:
                            allow.add("any", None, pos)
                            continue
                        got = acc + dev.pages[key]
                        if f["is_end"]:
                            if got:
                                allow.add("val", objects_check(got), pos)
                            else:
                                allow.add("any", None, pos)
                        else:
                            walk(j + 1, got, expected + f["object_amount"])
            if decisive and ms:
                return
            j += 1
        allow.add("comm")

    walk(0, [], first)
    return allow


# ------------------------------------------------------------------ running
BAUDS = (300, 600, 1200, 2400, 4800, 19200, 38400, 57600, 115200, 9600)


class Session:
    """One client and the meter it talks to.  With a parent, it shares the parent's world: its own
    places, its own links, and it is one of several tasks (number is its task number)."""

    def __init__(self, scn, trace=False, cfg=None, parent=None, number=0):
        E.load()
        self.scn = scn
        cfg = self.cfg = cfg or scn["cfg"]
        self.number = number
        if parent is None:
            self.k = kmod.Kernel()
            if trace:
                self.k.log = []
            self.w = net.World(self.k)
        else:
            self.k, self.w = parent.k, parent.w
        self.parent = parent
        self.T = int(cfg["T"] * US)
        self.host, self.tty = HOST, TTY
        if number:
            self.host, self.tty = "meter%d.example" % number, "/dev/ttySIM%d" % number
        self.host, self.port = cfg.get("host", self.host), cfg.get("port", PORT)
        self.dev = self.make_device(cfg)
        self.baud = BAUDS[cfg.get("pwid", 0) % len(BAUDS)]
        self.place(self.dev)
        self.results = []
        self.counts = {}
        self.cipher = self.client_cipher(cfg)
        self.kept = []              # other values to look at again at the end
        self.client = self.make_client(cfg)

    def make_device(self, cfg):
        return devmod.Meter(self.w, cfg)

    def place(self, dev):
        if self.cfg["tr"] == "tcp":
            self.w.places[("tcp", self.host, self.port)] = dev
        else:
            self.w.places[("serial", self.tty)] = dev
            dev.baud = self.baud

    @staticmethod
    def client_cipher(cfg):
        return (bytes.fromhex(cfg["enc"]["key"]), cfg["enc"]["kid"]) if cfg.get("enc") else None

    @staticmethod
    def password(cfg):
        return "".join(chr(c) for c in cfg["pw"])

    @staticmethod
    def made(what, fn, **kw):
        """fn(**kw); these settings are valid"""
        try:
            return fn(**kw)
        except (SimAbort, Violation):
            raise
        except Exception as e:
            raise Violation(None, "%s with valid settings cannot be made: %s"
                            % (what, short("%s: %s" % (type(e).__name__, e)))) from e

    def make_transport(self, cfg):
        T = None if cfg.get("forever") else cfg["T"]
        if cfg.get("own"):
            return OwnTransport(self.host, self.port, T, E.exceptions.CommunicationError)
        if cfg["tr"] == "tcp":
            return self.made("a transport", E.transport.BlockingTcpTransport, host=self.host,
                             port=self.port, timeout=T)
        return self.made("a transport", E.transport.SerialTransport, port=self.tty, baud_rate=self.baud,
                         timeout=T)

    def make_client(self, cfg, transport=None):
        kw = {}
        if cfg.get("enc"):
            kw = dict(encryption_key=bytes.fromhex(cfg["enc"]["key"]),
                      encryption_key_id=None if cfg.get("nokid") else cfg["enc"]["kid"])
        if cfg.get("addr"):
            d1, d2, s1, s2 = cfg["addr"]
            kw2 = dict(kw)
            kw["elgas_connection"] = self.made(
                "a connection", E.connection.ElgasConnection,
                password=self.password(cfg), password_id=cfg["pwid"], destination_address_1=d1,
                destination_address_2=d2, source_address_1=s1, source_address_2=s2, **kw2)
        return self.made("a client", E.client.ElgasClient,
                         transport=transport or self.make_transport(cfg),
                         password=self.password(cfg), password_id=cfg["pwid"], **kw)

    # -- one call
    def call(self, fn):
        try:
            return Outcome("val", fn())
        except (SimAbort, Violation):
            raise
        except SimHang as e:
            return Outcome("hang", exc=e)
        except BaseException as e:  # what the client raised is an outcome
            return Outcome("exc", exc=e)

    def invoke(self, client, op):
        name, a = op["op"], op.get("a", {})
        if name == "read_parameters":
            return client.read_parameters(a["from"]) if a.get("from") else client.read_parameters()
        if name == "read_archive":
            return client.read_archive(archive_of(a["archive"], a), a["amount"], a["id"])
        if name == "read_archive_by_time":
            return client.read_archive_by_time(archive_of(a["archive"], a), a["amount"],
                                               dt(a["time"], a))
        if name == "write_time":
            return client.write_time(dt(a["time"], a), bool(a.get("cryout")))
        return getattr(client, name)()

    def link(self):
        live = [l for l in self.w.links if not l.closed and l.device is self.dev]
        return live[-1] if live else None

    def step(self, i, op):
        """Run operation i and record what happened."""
        k = self.k
        plan = net.OpPlan(op, i)
        if self.parent is not None:
            self.w.by_task["task%d" % self.number] = plan
        else:
            self.w.plan = plan
            random.seed("%s/lib" % op.get("r", 0))
        link = self.link()
        if op.get("pre") and link is not None:
            for it in op["pre"]:
                if it["k"] in ("eof", "rst"):
                    link.emit(it["k"], 0, plan)
                    continue
                k.fault("line_noise")
                link.emit(bytes.fromhex(it["hex"]), int(it.get("d", 0) * self.T), plan)
            k.drain(link.free_at)
        r = {"i": i, "op": op, "name": op["op"], "t0": k.now, "link": link, "plan": plan,
             "sent_from": len(link.sent) if link else 0, "journal_from": len(self.dev.journal),
             "read_pos": link.read_pos if link else 0, "handles": self.w.open_handles}
        if self.parent is None:
            k.begin_op({n: int(j * US) for n, j in op.get("jump", ())})
        name = op["op"]
        if name == "connect":
            out = self.call(self.client.connect)
        elif name == "disconnect":
            out = self.call(self.client.disconnect)
        elif name == "next_event":
            out = self.call(self.client.next_event)
        elif name == "wait":
            out = Outcome("val", None)
            if self.parent is None:
                k.drain(k.now + int(op["d"] * self.T))
            else:
                k.sleep(op["d"] * self.T / US)
        elif name == "unencodable":
            out = self.call(lambda: self.unencodable(op))
        elif op.get("pair"):
            pw = self.password(self.cfg)
            out = self.call(lambda: self.client.send(make_pdu(op, pw), make_pdu(op["pair"], pw)))
        elif op.get("kline"):
            out = self.interrupted(op)
        else:
            out = self.call(lambda: self.invoke(self.client, op))
        r["out"] = out
        r["t1"] = k.now
        r["steps"] = k.steps
        r["jumps"] = k.jumps_done
        self.results.append(r)
        k.note("=%s:%s" % (name, out.kind if out.kind != "exc" else out.mro[0]))
        key = "%s:%s" % (name, "val" if out.kind == "val" else (out.mro[0] if out.mro else out.kind))
        self.counts[key] = self.counts.get(key, 0) + 1
        return r

    def interrupted(self, op):
        """The operation with an interrupt at a line of the library (counted from 1)."""
        def act(lines):
            self.k.fault("interrupt_at_line")
            raise net.ERRS[op.get("kexc", "kbd")]()

        def go():
            with Lines(library(), act) as lines:
                lines.left = op["kline"]
                return self.invoke(self.client, op)
        return self.call(go)

    def unencodable(self, op):
        a = op["a"]
        what = a["what"]
        c = self.client
        if what == "amount":
            return c.read_archive(archive_of(1, a), 65536 + a["n"], 0)
        if what == "id":
            return c.read_archive(archive_of(1, a), 1, 2 ** 32 + a["n"])
        if what == "negative":
            return c.read_archive(archive_of(1, a), -1 - a["n"], 0)
        if what == "object":
            return c.read_parameters(65536 + a["n"])
        archive = archive_of(1, a)
        early, late = (datetime.datetime(y, 1, 1) for y in (1999 - a["n"] % 50, 2100 + 7 * a["n"]))
        if what == "amount2":
            return c.read_archive_by_time(archive, 65536 + a["n"], dt([2020, 1, 1, 0, 0, 0]))
        if what == "id2":
            return c.read_archive(archive, 1, -1 - a["n"])
        if what == "object2":
            return c.read_parameters(-1 - a["n"])
        if what == "year":
            return c.write_time(early)
        if what == "late":
            return c.write_time(late)
        if what == "early record":
            return c.read_archive_by_time(archive, 1, early)
        if what == "late record":
            return c.read_archive_by_time(archive, 1, late)
        raise ValueError(what)

    # -- checks every profile can use
    def no_hang(self, r):
        if r["out"].kind == "hang":
            raise Violation(r["i"], "%s does not terminate: %s" % (r["name"], r["out"].exc))

    def allowed(self, r):
        """Outcomes the delivered bytes allow for a client operation."""
        link = r["link"]
        if link is None:
            raise RuntimeError("no link")
        sent = r["plan"].sent_at
        t0 = max(r["t0"], sent if sent is not None else 0)
        pos = getattr(link, "model_pos", None)
        pos = r["read_pos"] if pos is None else pos
        lines = lines_of(link, pos, t0, self.T)
        r["lines"] = lines
        first = r["op"].get("a", {}).get("from", 0)
        return predict(r["name"], first, lines, self.cipher, self.dev, self.cfg.get("own"))

    def check_outcome(self, r, extra=()):
        self.no_hang(r)
        allow = self.allowed(r)
        for kind, payload in extra:
            allow.add(kind, payload)
        ok, why = allow.match(r["out"])
        if not ok:
            raise Violation(r["i"], "%s %s; allowed: %s%s" % (
                r["name"], r["out"].text, allow, (" (%s)" % why) if why else ""))
        if why is not None and not isinstance(why, str):
            r["link"].model_pos = why
        return allow

    def unchanged(self):
        """What was returned is the user's: later operations do not change it."""
        for i, name, check, value in self.kept + [
                (r["i"], r["name"], r["out"].matched, r["out"].value) for r in self.results]:
            bad = check and check(value)
            if bad:
                raise Violation(i, "what %s returned was right, and changed afterwards: %s" % (
                    name, bad))

    def want_value(self, r):
        """The operation has to succeed with exactly the device's answer."""
        self.no_hang(r)
        if r["out"].kind != "val":
            raise Violation(r["i"], "%s %s although the device's answer arrived intact" % (
                r["name"], r["out"].text))
        self.check_outcome(r)

    def requests(self, r):
        return [e for e in self.dev.journal[r["journal_from"]:] if e["op"] == r["i"]]

    def check_requests(self, r, complete=True):
        """Every line the device got during the operation is exactly the requested operation."""
        name, a = r["name"], r["op"].get("a", {})
        got = self.requests(r)
        pw = self.password(self.cfg).encode("latin-1")     # may be shorter than its place
        expect_first = {a.get("from", 0)}
        for n, e in enumerate(got):
            if e["bad"]:
                raise Violation(r["i"], "%s: the device received %s (%s)" % (
                    name, e["line"].hex(), e["bad"]))
            if e["service"] != proto.SVC[name]:
                raise Violation(r["i"], "%s: the device received service %#x" % (name, e["service"]))
            if bool(self.cipher) != (e["kind"] == proto.EREQ):
                raise Violation(r["i"], "%s: request %sencrypted" % (
                    name, "not " if self.cipher else ""))
            if e["addr"] != tuple(self.cfg.get("addr") or (0, 0, 0, 0)):
                raise Violation(r["i"], "%s: the request is addressed %s" % (name, e["addr"]))
            if e["pw"] is not None and e["pw"][:len(pw)] != pw:
                raise Violation(r["i"], "%s: the device received password %r" % (name, e["pw"]))
            f = e["fields"]
            want = {}
            if name == "read_archive":
                want = {"archive": a["archive"], "id": a["id"], "amount": a["amount"]}
            elif name == "read_archive_by_time":
                want = {"archive": a["archive"], "amount": a["amount"], "time": a["time"],
                        "hour_bits": 0}
            elif name == "write_time":
                want = {"time": a["time"], "hour_bits": 0}
                if f["flags"] & ~1 != 4:
                    raise Violation(r["i"], "write_time: flags %#x" % f["flags"])
            elif name == "read_parameters":
                want = {}
                if f["first"] not in expect_first:
                    raise Violation(r["i"], "%s: the device was asked for objects from %d on, not "
                                    "from %s" % (name, f["first"], sorted(expect_first)))
                expect_first = {f["first"] + len(v) for (num, _), v in self.dev.pages.items()
                                if num == f["first"]}
            for key, v in want.items():
                if not same(f[key], v):
                    raise Violation(r["i"], "%s: the device received %s=%r instead of %r" % (
                        name, key, f[key], v))
        if name != "read_parameters" and len(got) > 1:
            raise Violation(r["i"], "%s: the device received %d requests" % (name, len(got)))
        if complete and not got:
            raise Violation(r["i"], "%s: the device received no request" % name)
        return got

    # -- life cycle
    def start(self):
        net.WORLD = self.w

    def stop(self):
        net.WORLD = None


def make_pdu(op, pw):
    """The request object of an operation, for use without a client."""
    A, a = E.application, op.get("a", {})
    n = op["op"]
    if n == "read_time":
        return A.ReadTimeRequest()
    if n == "read_instantaneous_values":
        return A.ReadInstantaneousValuesRequest(password=pw)
    if n == "read_parameters":
        return A.ReadDeviceParametersRequest(password=pw, object_count=a.get("from", 0),
                                             buffer_length=a.get("buffer", 1024))
    if n == "read_archive":
        return A.ReadArchiveRequest(password=pw, archive=archive_of(a["archive"], a),
                                    amount=a["amount"], oldest_record_id=a["id"])
    if n == "read_archive_by_time":
        return A.ReadArchiveByTimeRequest(
            password=pw, archive=archive_of(a["archive"], a), amount=a["amount"],
            oldest_timestamp=dt(a["time"], a))
    return A.WriteTimeRequest(password=pw, device_time=dt(a["time"], a))


def run_guarded(fn, scn, trace=False):
    """Run one profile on one scenario with stdout and stderr kept out of the way.
    -> (violation or None, session or None)"""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    box = {}
    net.timezone(scn.get("tz"))
    try:
        try:
            fn(scn, box, trace)
            return None, box.get("s")
        except Violation as v:
            return v, box.get("s")
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            where = os.path.realpath(tb.tb_frame.f_code.co_filename)
            if not where.startswith(os.path.realpath(library()) + os.sep):
                raise
            return Violation(None, "the library raised %s: %s where it has no reason to"
                             % (type(e).__name__, short(str(e)))), box.get("s")
    finally:
        box["stdout"] = sys.stdout.getvalue() + sys.stderr.getvalue()
        sys.stdout, sys.stderr = out, err
        net.WORLD = None
        net.timezone(None)
