"""Profiles C11 to C17."""
import base64
import datetime
import inspect
import logging
import random
import sys
import traceback

from . import device as devmod
from . import gen, kernel as kmod, net, params, proto, session
from .device import any_time, blob
from .kernel import CURRENT, US, Lines, Scheduler
from .props import (Base, Failures, PDU_CLASS, Recovery, err_code, generic_check, good, pdu_check,
                    per_request, profile, raw, wrap)
from .session import E, Session, Violation, make_pdu


# ===================================================================== C11
class Tape:
    """Stands where a link stands for the simulated meter: keeps what it says."""

    def __init__(self):
        self.out = bytearray()

    def emit(self, data, delay, plan):
        if not isinstance(data, str):
            self.out += data


@profile("C11")
class Chunks(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng)
        ops = []
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def stray():
                x = rng.random()
                if x < 0.35:
                    return {"k": "other", "svc": gen.other_service(rng, op["op"]), "c": gen.sd(rng)}
                if x < 0.5:
                    return {"k": "err", "svc": gen.other_service(rng, op["op"]), "code": err_code(rng)}
                if x < 0.75:
                    return dict(good(rng, False), m=gen.mutations(rng))
                return raw(gen.noise(rng, rng.random() < 0.8))
            items = [stray() for _ in range(rng.choice((0, 0, 1, 1, 2, 4)))]
            items.append({"k": "err", "code": err_code(rng)} if rng.random() < 0.15
                         else good(rng, False))
            if rng.random() < 0.25:
                items.append(raw(gen.noise(rng)))
            op["req"] = [items]
            op["cuts"] = [[gen.sd(rng), rng.choice((0, 1, 2, 3)), rng.choice((0.1, 0.5, 1))]
                          for _ in range(rng.choice((2, 2, 3)))]
            ops.append(op)
        return gen.zone(rng, {"cfg": c, "ops": ops})

    @staticmethod
    def connection(cfg):
        kw = {}
        if cfg.get("enc"):
            kw = dict(encryption_key=bytes.fromhex(cfg["enc"]["key"]),
                      encryption_key_id=cfg["enc"]["kid"])
        return Session.made(
            "a connection", E.connection.ElgasConnection, password=Session.password(cfg), password_id=cfg["pwid"], destination_address_1=0,
            destination_address_2=0, source_address_1=0, source_address_2=0, **kw)

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        n = max([len(op["cuts"]) for op in scn["ops"]] or [0])
        conns = [cls.connection(scn["cfg"]) for _ in range(n)]
        for i, op in enumerate(scn["ops"]):
            cls.round(s, conns, i, op)
        s.unchanged()

    @classmethod
    def round(cls, s, conns, i, op):
        name = op["op"]
        svc = proto.SVC[name]
        pw = s.password(s.cfg)
        random.seed("%s/lib" % op.get("r", 0))
        histories, stream = [], None
        journal_from = len(s.dev.journal)
        for j, conn in enumerate(conns):
            out = s.call(lambda: conn.send(make_pdu(op, pw)))
            if out.kind != "val":
                raise Violation(i, "sending %s while nothing is outstanding %s" % (name, out.text))
            tape = Tape()
            plan = net.OpPlan(op, i)
            s.dev.on_line(tape, bytes(out.value), plan)
            if stream is None:
                r = {"i": i, "op": op, "name": name, "journal_from": journal_from}
                s.check_requests(r)
                stream = bytes(tape.out)
            seed, how, poll = op["cuts"][j % len(op["cuts"])]
            # the same stream for all
            histories.append(cls.feed(s, conn, stream, random.Random("%s/cut" % seed), how, poll, i))
        lines, at = [], 0
        while True:
            e = stream.find(b"\r", at)
            if e < 0:
                break
            lines.append(stream[at:e + 1])
            at = e + 1
        # reference: what each line may do
        for j, h in enumerate(histories):
            cls.judge(s, i, op, svc, h, lines, j)
            s.kept += [(i, name, x.matched, x.value) for x in h]
        first = [cls.sig(x) for x in histories[0]]
        for j, h in enumerate(histories[1:], 1):
            if [cls.sig(x) for x in h] != first:
                raise Violation(i, "%s: the events depend on how the bytes were cut: %s, or %s" % (
                    name, [x.text for x in histories[0]], [x.text for x in h]))
        ended, at = cls.conclusion(lines, s.cipher, svc)
        if ended is None or any(proto.classify(l, s.cipher)[1] for l in lines[at + 1:]) \
                or not stream.endswith(b"\r"):
            conns[:] = [cls.connection(s.cfg) for _ in conns]   # not sure what is outstanding
        key = "%s:%s" % (name, histories[0][-1].kind if histories[0] else "nothing")
        s.counts[key] = s.counts.get(key, 0) + 1
        s.results.append({"i": i, "op": op, "name": name, "out": histories[0][-1] if histories[0]
                          else session.Outcome("val", None), "t0": 0, "t1": 0})

    @staticmethod
    def sig(out):
        if out.kind == "val":
            return ("val", repr(out.value))
        return ("exc", out.mro[0])

    @classmethod
    def feed(cls, s, conn, stream, rng, how, poll, i):
        """Give the stream in pieces, ask for events in between. -> outcomes"""
        k = s.k
        if how == 0:
            cuts = [len(stream)]
        elif how == 1:
            cuts = list(range(1, len(stream) + 1))
        elif how == 2:                   # a line at a time, like the transports
            cuts = [j + 1 for j, b in enumerate(stream) if b == 0x0D]
            if not cuts or cuts[-1] != len(stream):
                cuts.append(len(stream))
        else:
            m = min(len(stream), rng.randint(1, 12))
            cuts = sorted(rng.sample(range(1, len(stream) + 1), m))
            if cuts[-1] != len(stream):
                cuts.append(len(stream))
        h, at, done = [], 0, False
        for c in cuts:
            piece = stream[at:c]
            at = c
            k.note("+%d" % len(piece))
            out = s.call(lambda: conn.receive_data(piece))
            if out.kind != "val":
                raise Violation(i, "receive_data %s" % out.text)
            if not done and (rng.random() < poll or c == cuts[-1]):
                for _ in range(len(stream) + 2):
                    k.note("?")
                    out = s.call(conn.next_event)
                    if out.kind == "val" and out.value is E.state.NEED_DATA:
                        break
                    h.append(out)
                    if out.kind == "val":
                        done = True
                        break
                else:
                    raise Violation(i, "next_event never asks for more data")
        return h

    @classmethod
    def judge(cls, s, i, op, svc, h, lines, j):
        """Is the history one of those the lines allow?"""
        name = op["op"]
        j = 0
        for out in h:
            allow = session.Allow()
            while j < len(lines):
                certain, ms = proto.classify(lines[j], s.cipher)
                j += 1
                stop = certain
                for m in ms:
                    if m[0] == "rsp" and m[1] == svc:
                        try:
                            allow.add("val", pdu_check(name, proto.parse_response(svc, m[2])), j)
                        except proto.Bad:
                            allow.add("any", None, j)
                    elif m[0] == "err" and m[1] == svc:
                        allow.add("exc", m[2], j)
                    else:
                        allow.add("anyexc", None, j)
                        stop = False
                if stop and ms:
                    break
            ok, why = allow.match(out)
            if not ok:
                raise Violation(i, "%s: next_event %s; allowed: %s (%s)" % (
                    name, out.text, allow or "nothing", why))
            j = why if isinstance(why, int) else j
        # did it miss an answer?
        ended, missed = cls.conclusion(lines, s.cipher, svc)
        if ended == "val" and not any(x.kind == "val" for x in h) or isinstance(ended, list) \
                and not any(set(x.mro) & set(ended) for x in h):
            raise Violation(i, "%s: an intact answer was given and is not reported, next_event: %s" % (
                name, [x.text for x in h]))

    @staticmethod
    def conclusion(lines, cipher, svc):
        """How the stream surely ends the request: "val", a list of errors, or None. And where."""
        for n, line in enumerate(lines):
            certain, ms = proto.classify(line, cipher)
            for m in ms:
                if m[0] in ("rsp", "err") and m[1] == svc:
                    if not certain:
                        return None, n
                    if m[0] == "err":
                        return list(m[2]), n
                    try:
                        proto.parse_response(svc, m[2])
                    except proto.Bad:
                        return None, n
                    return "val", n
        return None, len(lines)


# ===================================================================== C12
class Capture(logging.Handler):
    def __init__(self, sink):
        super().__init__(0)
        self.sink = sink

    def emit(self, record):
        try:
            self.sink.append(record.getMessage())
            self.sink.append(repr(record.args))
        except Exception as e:  # a broken record is not what is checked here
            self.sink.append(repr(e))


@profile("C12")
class Secrecy(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, enc=True)
        c["pw"] = [rng.choice(gen.ALNUM) for _ in range(6)]
        x = rng.random()
        c["odd"] = x < 0.23
        if x < 0.06:          # cannot be encoded
            c["pw"][rng.randrange(6)] = rng.choice((0x20AC, 0x151, 0x1F511))
        elif x < 0.12:        # shorter than what devices take
            del c["pw"][rng.choice((4, 5, 5)):]
        elif x < 0.18:        # a key the cipher refuses
            c["enc"]["key"] = bytes(rng.randrange(256) for _ in range(rng.choice((15, 17, 31)))).hex()
        elif x < 0.2:         # longer than what connections take
            c["pw"] += [rng.choice(gen.ALNUM) for _ in range(rng.choice((1, 1, 2, 6)))]
        elif x < 0.23:        # the key id was forgotten
            c["nokid"] = 1
            if rng.random() < 0.3:
                c["addr"] = [rng.randrange(65536), rng.randrange(256), 0, 0]
        ops = []
        if rng.random() < 0.15:
            ops.append({"op": "connect", "f": [gen.connect_fault(rng, c["tr"])]})
        ops.append({"op": "connect"})
        for _ in range(gen.several(rng, 1, 5, (30,))):
            ops.append(gen.base(rng, rng.choice(gen.OPS)) if rng.random() < 0.4
                       else Recovery.broken(rng, c))
        ops.append({"op": "disconnect"})
        return {"cfg": c, "ops": ops}

    @classmethod
    def secrets(cls, cfg):
        pw = "".join(chr(x) for x in cfg["pw"])
        key = bytes.fromhex(cfg["enc"]["key"])
        text = {pw: "password", pw[::-1]: "password", pw.encode().hex(): "password",
                base64.b64encode(pw.encode()).decode(): "password",
                repr(key)[2:-1]: "key", key.hex(): "key", key.hex().upper(): "key",
                key.hex(" "): "key", base64.b64encode(key).decode(): "key",
                repr(list(key))[1:-1]: "key", str(int.from_bytes(key, "big")): "key",
                key.hex("-"): "key", key.hex(":"): "key", base64.b16encode(key[::-1]).decode(): "key",
                pw[1:]: "password", pw[:-1]: "password", pw.encode().hex(" "): "password",
                repr(list(pw.encode()))[1:-1]: "password", repr(list(pw))[1:-1]: "password"}
        for half in (key[:8], key[-8:], key[:6]):     # a part of the key
            text.update({repr(half)[2:-1]: "key", half.hex(): "key", half.hex().upper(): "key",
                         half.hex(" "): "key", repr(list(half))[1:-1]: "key"})
        text = {t: what for t, what in text.items() if len(t) > 4 or t == pw}
        wire = {pw.encode("latin-1", "replace"): "password", pw.encode(): "password", key: "key",
                pw.encode()[::-1]: "password"}
        return text, wire

    @classmethod
    def run(cls, scn, box, trace=False):
        hits = cls.once(scn, box, trace)
        if hits:
            # the same six letters can turn up by chance; a leak follows the secret
            other = dict(scn, cfg=dict(scn["cfg"]))
            other["cfg"]["pw"] = [c ^ 1 if 0x30 <= c ^ 1 <= 0x7A else c for c in scn["cfg"]["pw"]]
            other["cfg"]["enc"] = dict(scn["cfg"]["enc"],
                                       key=bytes(b ^ 0x5A for b in bytes.fromhex(
                                           scn["cfg"]["enc"]["key"])).hex())
            again = {(w, what) for _, w, what in cls.once(other, {}, False)}
            for i, where, what in hits:
                if (where, what) in again:
                    raise Violation(i, "the %s is in clear %s" % (what, where))

    @classmethod
    def once(cls, scn, box, trace):
        sink = []
        E.load()
        E.loud(sink)
        root = logging.getLogger()
        handler, level = Capture(sink), root.level
        root.addHandler(handler)
        root.setLevel(0)
        try:
            return cls.watch(scn, box, trace, sink)
        finally:
            E.quiet()
            root.removeHandler(handler)
            root.setLevel(level)

    @classmethod
    def watch(cls, scn, box, trace, sink):
        text, wire = cls.secrets(scn["cfg"])
        hits = []

        def look(i, where, s):
            for sec, what in text.items():
                if sec in s:
                    hits.append((i, where, what))
        try:
            s = cls.open(scn, box, trace)
        except Violation as v:
            odd = scn["cfg"].get("odd")
            e, depth = v.__cause__, 0
            while e is not None and depth < 10:
                look(None, "in an exception", "%s %r" % (e, e))
                e, depth = e.__cause__ or e.__context__, depth + 1
            look(None, "in a traceback", "".join(traceback.format_exception(v.__cause__ or v)))
            for t in sink:
                look(None, "in a log record", t)
            look(None, "on standard output", sys.stdout.getvalue())
            look(None, "on standard error", sys.stderr.getvalue())
            if not odd and not hits:
                raise
            return hits
        wire_at = {}
        for i, op in enumerate(scn["ops"]):
            if s.link() is None and op["op"] not in ("connect", "disconnect"):
                continue
            if op["op"] == "connect" and s.link() is not None:
                continue
            sink.clear()
            printed = len(sys.stdout.getvalue()), len(sys.stderr.getvalue())
            r = s.step(i, op)
            s.no_hang(r)
            for t in sink:
                look(i, "in a log record", t)
            look(i, "on standard output", sys.stdout.getvalue()[printed[0]:])
            look(i, "on standard error", sys.stderr.getvalue()[printed[1]:])
            e, depth = r["out"].exc, 0
            while e is not None and depth < 10:
                look(i, "in an exception", "%s %r" % (e, e))
                e, depth = e.__cause__ or e.__context__, depth + 1
            if r["out"].exc is not None:
                look(i, "in a traceback", "".join(traceback.format_exception(r["out"].exc)))
            elif r["out"].value is not None:
                look(i, "in the representation of an answer", repr(r["out"].value))
            for what, obj in (("the client", s.client), ("the connection", s.client.elgas_connection),
                              ("the transport", s.client.transport)):
                look(i, "in the representation of " + what, repr(obj) + " " + str(obj))
            for link in s.w.links:
                at = wire_at.get(link, 0)
                seen = bytes(link.sent[at:])
                wire_at[link] = len(link.sent)
                plain = proto.unescape(seen + b"\r", strict=False)
                for b in (seen, plain):
                    for sec, what in wire.items():
                        if sec in b:
                            hits.append((i, "on the line", what))
                for line in seen.split(b"\r"):
                    if line and not line.startswith(b"\x02\xfe\x85"[:len(line)]):
                        raise Violation(i, "%s put %s on the line, which is not the start of an "
                                        "encrypted request" % (r["name"], session.short(line.hex())))
            if r["name"] not in ("connect", "disconnect") and r["out"].kind != "val":
                cls.reconnect(s, i)
        return hits


# ===================================================================== C13
@profile("C13")
class Integrity(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, enc=True, own=True)
        if rng.random() < 0.2:           # the meter has other keys
            c["dev_enc"] = dict(c["enc"])
            if rng.random() < 0.5:
                c["dev_enc"]["kid"] = c["enc"]["kid"] % 7 + 1
            else:
                c["dev_enc"]["key"] = gen.key(rng)["key"]
        ops = []
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def make():
                items = []
                x = rng.random()
                it = good(rng)
                if x < 0.25:
                    return [it]
                if x < 0.55:
                    it["ct"] = gen.mutations(rng)
                elif x < 0.7:
                    it["ct"] = [["cut", round(rng.random(), 4), 0]]
                elif x < 0.8:
                    it["key"] = dict(c["enc"], kid=c["enc"]["kid"] % 7 + 1)
                elif x < 0.9:
                    it["key"] = dict(gen.key(rng), kid=c["enc"]["kid"])
                    if rng.random() < 0.5:   # one bit of the key
                        k = bytearray.fromhex(c["enc"]["key"])
                        k[rng.randrange(len(k))] ^= 1 << rng.randrange(8)
                        it["key"]["key"] = k.hex()
                else:
                    it = {"k": "err", "code": err_code(rng), "ct": gen.mutations(rng)}
                items.append(it)
                if rng.random() < 0.4:
                    items.append(good(rng))
                return items
            per_request(op, rng, make)
            op["apply"] = True
            ops.append(op)
        return {"cfg": c, "ops": wrap(ops)}

    @classmethod
    def check(cls, s, r):
        s.check_outcome(r)
        for e in s.dev.journal[r["journal_from"]:]:
            # whatever keys the meter has, what it got opens with the client's
            try:
                fr = proto.parse(proto.unescape(e["line"]))
                if fr.kind != proto.EREQ:
                    raise proto.Bad("frame type %#x" % fr.kind)
                plain = proto.decrypt(fr.data, *s.cipher)
                pw, fields = proto.parse_request(fr.service, plain)
            except proto.Bad as x:
                raise Violation(r["i"], "%s: the request does not open with the key: %s (%s)" % (
                    r["name"], e["line"].hex(), x))
            if pw is not None and not pw.startswith(s.password(s.cfg).encode("latin-1")):
                raise Violation(r["i"], "%s: the request carries password %r" % (r["name"], pw))
            for key in ("id", "amount", "time", "archive"):
                want = r["op"].get("a", {}).get(key)
                if want is not None and not session.same(fields.get(key), want):
                    raise Violation(r["i"], "%s: the request carries %s=%r instead of %r" % (
                        r["name"], key, fields.get(key), want))
        if not s.dev.journal[r["journal_from"]:]:
            raise Violation(r["i"], "%s: the meter received nothing" % r["name"])
        if r["out"].kind != "val" or any(len(q) > 1 for q in r["op"].get("req", ())):
            cls.reconnect(s)


# ===================================================================== C14
@profile("C14")
class Isolation(Base):
    @classmethod
    def gen(cls, rng):
        n = rng.choice((2, 2, 3, 4))
        clients = []
        shared = gen.cfg(rng)
        gateway = rng.random() < 0.25       # the meters are ports of one host
        for number in range(n):
            c = gen.cfg(rng)
            if rng.random() < 0.3:          # same secrets, other meter
                c["pw"], c["enc"] = shared["pw"], shared["enc"]
            if gateway and c["tr"] == "tcp":
                c["host"], c["port"] = "gateway.example", 4001 + number
            ops = []
            for _ in range(gen.several(rng, 1, 3, (20, 70))):
                op = gen.base(rng, rng.choice(gen.OPS))
                op["sch"] = [rng.choice((0, 1)), rng.choice((0, 1, 2))]
                x = rng.random()
                if x < 0.5:
                    pass
                elif x < 0.6:
                    op["req"] = [[{"k": "err", "code": err_code(rng)}]]
                elif x < 0.7:
                    op["req"] = [[dict(good(rng), m=gen.mutations(rng))]]
                elif x < 0.77:
                    op["req"] = [[raw(gen.noise(rng)), good(rng)]]
                elif x < 0.85:
                    op["f"] = [gen.faults_io(rng, c["tr"])]
                elif x < 0.92:          # what another one may be waiting for
                    op["req"] = [[{"k": "other", "svc": gen.other_service(rng, op["op"]), "c": gen.sd(rng)}]]
                else:
                    op["req"] = [[]]
                ops.append(op)
            if rng.random() < 0.3:      # connections come and go, some cannot be made at first
                for i in range(rng.randint(1, 2)):
                    at = rng.randint(0, len(ops))
                    new = [{"op": "connect", "sch": gen.sched(rng)}]
                    if rng.random() < 0.6:
                        new[0]["f"] = [gen.connect_fault(rng, c["tr"])]
                    if at:
                        new.insert(0, {"op": "disconnect"})
                    if rng.random() < 0.3:
                        new.append({"op": "wait", "d": rng.choice((0.05, 0.2, 1))})
                    ops[at:at] = new
            if rng.random() < 0.2:
                ops.insert(0, {"op": "wait", "d": rng.choice((0.01, 0.1, 0.5))})
            clients.append({"cfg": c, "ops": ops})
        scn = {"cfg": clients[0]["cfg"], "clients": clients, "sched": gen.sd(rng),
               "stick": rng.choice((0, 0.5, 0.9, 0.98)), "ops": []}
        if rng.random() < 0.35:      # tasks also lose the processor between any two lines
            if rng.random() < 0.5:
                scn["gap"] = rng.choice((3, 20, 100, 400))
            else:
                scn["gap"], scn["rare"] = rng.choice((2, 5, 15, 40)), 1
            scn["hold"] = rng.choice((0, 0, 50, 500, 2000))
            if rng.random() < 0.7:   # all do the same
                kinds = [rng.choice(gen.OPS)] * 3 + [rng.choice(gen.OPS)]
                kinds = kinds[:rng.randint(2, 4)]
                for c in clients:
                    c["ops"] = [gen.base(rng, kind) for kind in kinds]
                scn["gap"], scn["rare"] = rng.choice((10, 50, 100)), 1
                scn["hold"] = 10 ** 6
            scn["stick"] = 0
            for c in clients:
                for op in c["ops"]:
                    if op["op"] not in ("wait", "connect", "disconnect"):
                        op["sch"] = [0, rng.choice((0, 0, 1))]
        return scn

    @classmethod
    def run(cls, scn, box, trace=False):
        base = cls.open(scn, box, trace)
        k = base.k
        k.MAX_STEPS, k.MAX_TIME = 10 ** 6, 10 ** 6 * US
        random.seed("%s/lib" % scn["sched"])
        sched = Scheduler(k, "%s/sched" % scn["sched"], scn.get("stick", 0))
        subs = []
        for n, c in enumerate(scn["clients"]):
            s = Session(scn, cfg=c["cfg"], parent=base, number=n + 1)
            subs.append(s)
            sched.spawn("task%d" % (n + 1), lambda s=s, c=c: cls.task(s, c["ops"]))
        k.sched = CURRENT[0] = sched
        try:
            if scn.get("gap"):
                cls.preempted(scn, sched)
            else:
                sched.run()
        finally:
            k.sched = CURRENT[0] = None
        base.switches = sched.switches
        for s in subs:
            for key, v in s.counts.items():
                base.counts[key] = base.counts.get(key, 0) + v
            base.results += s.results
        for n, t in enumerate(sched.tasks):
            if isinstance(t["exc"], Violation):
                v = t["exc"]
                raise Violation(v.op, "client %d: %s" % (n + 1, v.what))
        if k.dead:
            raise Violation(None, "the clients do not terminate: %s" % k.dead)
        for t in sched.tasks:
            if t["exc"] is not None:
                raise t["exc"]
        base.unchanged()

    @classmethod
    def root(cls, scn):
        return session.library()

    @classmethod
    def preempted(cls, scn, sched):
        rng = random.Random("%s/lines" % scn["sched"])
        most = 2 * scn["gap"]

        def act(lines):
            lines.left = rng.randint(1, most)
            sched.k.faults["preempted"] = sched.k.faults.get("preempted", 0) + 1
            if scn.get("hold") and sched.points >= sched.held[1]:
                sched.held = (sched.cur, sched.points + rng.randint(1, scn["hold"]))
            sched.pause(None, None)

        with Lines(cls.root(scn), act, scn.get("rare")) as lines:
            lines.left = rng.randint(1, most)
            sched.run()

    @classmethod
    def task(cls, s, ops):
        i = 0
        up = False
        for op in ops + [{"op": "disconnect"}]:
            if op["op"] not in ("wait", "connect", "disconnect") and not up:
                r = s.step(i, {"op": "connect"})
                i += 1
                s.no_hang(r)
                if r["out"].kind != "val":
                    raise Violation(r["i"], "connect %s without a fault" % r["out"].text)
                up = True
            if op["op"] == "connect" and up:
                continue
            r = s.step(i, op)
            i += 1
            sched = CURRENT[0]
            if sched.held[0] is not sched.cur:      # long enough for an operation of another task
                sched.held = (None, 0)
            s.no_hang(r)
            out = r["out"]
            if op["op"] == "wait":
                continue
            if op["op"] in ("connect", "disconnect"):
                if out.kind != "val" and not (op.get("f") and out.is_comm):
                    raise Violation(r["i"], "%s %s without a fault" % (op["op"], out.text))
                up = op["op"] == "connect" and out.kind == "val"
                continue
            clean = not op.get("f") and "req" not in op
            if clean:
                s.want_value(r)
                s.check_requests(r)
            else:
                if op.get("f"):
                    s.check_outcome(r, [("comm", None)])
                else:
                    s.check_outcome(r)
                s.check_requests(r, complete=False)
            for e in s.requests(r):
                if e["link"].device is not s.dev:
                    raise Violation(r["i"], "%s reached another meter" % op["op"])
            if not clean:
                for o in ("disconnect", "connect"):
                    r2 = s.step(i, {"op": o})
                    i += 1
                    s.no_hang(r2)
                    if r2["out"].kind != "val" and not (o == "disconnect" and r2["out"].is_comm):
                        raise Violation(r["i"], "%s after a failure %s" % (o, r2["out"].text))


# ===================================================================== C15
@profile("C15")
class Lifecycle(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, enc=False)
        ops, lean = [], rng.random()
        up = False
        for _ in range(gen.several(rng, 3, 16, (100, 300))):
            name = rng.choice(("connect", "connect", "disconnect", "send", "recv", "recv"))
            if up and name == "connect" and rng.random() < 0.6:
                name = "recv"
            op = {"op": name, "s": gen.sd(rng), "sch": gen.sched(rng)}
            if name == "connect":
                up = True
                if rng.random() < 0.2 * lean * 2:
                    op["f"] = [gen.connect_fault(rng, c["tr"])]
            elif name == "disconnect":
                up = False
                if rng.random() < 0.35:
                    op["f"] = [gen.disconnect_fault(rng, c["tr"])]
            elif name == "send":
                op["hex"] = blob(rng, rng.choice((1, 5, 16, 40)), 0.3).hex()
                if rng.random() < 0.2 * lean:
                    op["f"] = [gen.faults_io(rng, c["tr"], ("send",))]
            else:
                x = rng.random()
                lines = [blob(rng, rng.choice((0, 1, 3, 20)), 0.2).replace(b"\r", b"") + b"\r"
                         for _ in range(rng.choice((0, 1, 1, 1, 2)))]
                if x < 0.15:
                    lines.append(blob(rng, 4).replace(b"\r", b""))
                op["say"] = [[l.hex(), rng.choice((0, 0, 0.1))] for l in lines]
                if x > 0.9 and c["tr"] == "tcp":
                    op["say"].append([rng.choice(("eof", "rst")), 0])
                if rng.random() < 0.2 * lean:
                    op["f"] = [gen.faults_io(rng, c["tr"], ("recv",))]
                if rng.random() < 0.12:     # up to another sequence, or so many bytes at most
                    op["until"] = [rng.choice(("0d", "0d", "0d0d", "03", "8d1b", "0a")),
                                   rng.choice((None, 1, 2, 4, 5, rng.randint(1, 30), 100))]
                    if rng.random() < 0.5:
                        op["say"].append([rng.choice(("0d0d", "030d", "8d1b0d", "1b8d1b0d")), 0])
            if name == "recv" and rng.random() < 0.03:
                # a line that never falls silent: single bytes with pauses shorter than the limit
                op["drip"] = [rng.randint(3, 14), rng.choice((0.3, 0.6, 0.6, 0.9))]
            if "f" not in op and rng.random() < 0.06:
                m = {"connect": "connect", "send": "send", "recv": "recv"}.get(name)
                if m is None:
                    m = rng.choice(("close", "shutdown")) if c["tr"] == "tcp" else "close"
                op["f"] = [{"m": m, "n": 0, "k": "kbd", "part": rng.choice((0, 0.5))}]
            ops.append(op)
        ops.append({"op": "disconnect"})
        return {"cfg": c, "ops": ops}

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        tr = s.make_transport(scn["cfg"])
        k, w = s.k, s.w
        state = "closed"                 # closed / open / unsure (interrupted half way)
        pos = (0, 0)                     # what recv returned so far ends in this range
        total_open = 0
        s.dev.on_line = lambda link, line, plan: None
        for i, op in enumerate(scn["ops"]):
            name = op["op"]
            plan = net.OpPlan(op, i)
            w.plan = plan
            live = [l for l in w.links if not l.closed]
            link = live[-1] if live else None
            if link is not None:
                for what, d in op.get("say", ()):
                    link.emit(what if what in ("eof", "rst") else bytes.fromhex(what),
                              int(d * s.T), plan)
                n, gap = op.get("drip", (0, 0))
                for at in range(n):
                    link.emit(b"%c" % (65 + at), int(gap * s.T), plan)
            sent = len(link.sent) if link else 0
            calls, faults = k.total_steps, dict(k.faults)
            opened, handles, t0 = w.opened, w.open_handles, k.now
            k.begin_op()
            if name == "send":
                data = bytes.fromhex(op["hex"])
                out = s.call(lambda: tr.send(data))
            elif op.get("until") and cls.takes_until(tr):
                out = s.call(lambda: tr.recv_until(bytes.fromhex(op["until"][0]), op["until"][1]))
            else:
                out = s.call(getattr(tr, name))
            r = {"i": i, "op": op, "name": name, "out": out, "t0": t0, "t1": k.now, "state": state}
            s.results.append(r)
            key = "%s/%s:%s" % (name, state, "val" if out.kind == "val" else out.mro[0])
            s.counts[key] = s.counts.get(key, 0) + 1
            k.note(key)
            s.no_hang(r)
            f = op.get("f", [None])[0]
            fired = f is not None and any(k.faults.get("%s_%s" % (f["m"], x), 0)
                                          > faults.get("%s_%s" % (f["m"], x), 0)
                                          for x in (f["k"], "timeout"))
            kbd = fired and f["k"] == "kbd"

            def bad(what):
                raise Violation(i, "%s on %s transport %s: %s" % (
                    name, {"closed": "a closed", "open": "an open", "unsure": "an interrupted"}[state],
                    out.text, what))
            if w.wrong_places:
                bad("it went to %s" % (w.wrong_places[0],))
            if w.open_handles > 1:
                bad("%d handles are open" % w.open_handles)
            if name == "recv" and k.now - t0 > 2 * s.T + US:
                bad("it took %.1f s, the time limit is %.1f s" % ((k.now - t0) / US, s.T / US))
            if kbd:
                if out.kind == "val":
                    bad("the interrupt was swallowed")
                if not isinstance(out.exc, KeyboardInterrupt):
                    bad("the interrupt was replaced")
            if name == "connect":
                if state == "closed":
                    if fired and not kbd:
                        if not out.is_comm:
                            bad("%s, expected CommunicationError" % f["k"])
                    elif not fired and out.kind != "val":
                        bad("expected a connection")
                    if out.kind == "val":
                        if w.open_handles != 1 or w.opened != opened + 1:
                            bad("%d handles are open" % w.open_handles)
                        state, pos = "open", (0, 0)
                    elif w.open_handles:
                        bad("it left a handle open")
                elif state == "open":
                    if out.kind == "val":
                        bad("there is a connection already")
                    if w.opened != opened or w.open_handles != handles:
                        bad("it changed the connection there is")
                else:
                    if out.kind == "val":
                        if w.opened != opened + 1 and not handles:
                            bad("no new connection")
                        state = "open"
                        pos = (0, 0) if w.opened != opened else pos
                    if kbd and w.open_handles:
                        state = "unsure"
            elif name == "disconnect":
                if state == "closed":
                    if out.kind != "val":
                        bad("there is nothing to do")
                elif kbd:
                    state = "unsure"
                else:
                    if out.kind != "val" and not out.is_comm:
                        bad("expected success or CommunicationError")
                    if out.kind != "val" and not fired and not (
                            link is None or link.end or link.broken or state == "unsure"):
                        bad("nothing failed")
                    state = "closed"
                if state == "closed" and w.open_handles:
                    bad("the handle is still open")
            elif state == "closed":
                if out.kind == "val":
                    bad("there is no connection")
                if w.opened != opened:
                    bad("it opened a connection")
            elif state == "unsure":
                pass
            elif name == "send":
                got = bytes(link.sent[sent:])
                if out.kind == "val":
                    if fired:
                        bad("it hid that sending failed (%s)" % f["k"])
                    if got != data:
                        bad("%s was sent for %s" % (got.hex(), data.hex()))
                else:
                    if not kbd and not out.is_comm:
                        bad("expected CommunicationError")
                    if not fired and not link.end and not link.broken:
                        bad("nothing failed")
                    if not data.startswith(got):
                        bad("%s was sent for %s" % (got.hex(), data.hex()))
            elif op.get("until") and cls.takes_until(tr):
                pos = cls.until(s, op, link, out, pos, fired, t0, bad)
            else:
                pos = cls.received(s, link, out, pos, fired, kbd, f, t0, bad)
                if kbd:
                    pos = (pos[0], link.read_pos)

    @staticmethod
    def takes_until(tr):
        try:
            return list(inspect.signature(tr.recv_until).parameters) == ["expected", "size"]
        except (AttributeError, ValueError, TypeError):
            return False

    @classmethod
    def until(cls, s, op, link, out, pos, fired, t0, bad):
        """recv_until(expected, size) on an open transport"""
        end, size = bytes.fromhex(op["until"][0]), op["until"][1]
        stream = b"".join(x for _, x in link.log if not isinstance(x, str))
        if fired or pos[0] != pos[1]:
            return pos[0], link.read_pos
        rest = stream[pos[0]:]
        n = rest.find(end)
        want = len(rest) + 1 if n < 0 else n + len(end)
        if size is not None:
            want = min(want, size)
        if out.kind != "val":
            there = sum(len(x) for t, x in link.log if t <= t0 and not isinstance(x, str)) - pos[0]
            if want <= there and not link.end and not link.broken:
                bad("what it waits for was there")
            return pos[0], link.read_pos
        data = bytes(out.value)
        if not rest.startswith(data) or pos[0] + len(data) > link.read_pos:
            bad("the line said %s" % session.short(rest.hex()))
        if len(data) > want:
            bad("it went past the end")
        if len(data) < want and s.k.now - t0 < s.T:
            bad("it is not complete, and there was time")
        return pos[0] + len(data), pos[0] + len(data)

    @classmethod
    def received(cls, s, link, out, pos, fired, kbd, f, t0, bad):
        stream = b"".join(x for _, x in link.log if not isinstance(x, str))
        if out.kind != "val":
            if not kbd and not out.is_comm:
                bad("expected CommunicationError")
            if not fired and not link.end and not link.broken:
                lines = session.lines_of(link, pos[1], t0, s.T)
                if lines and pos[0] == pos[1]:
                    bad("a line was there")
            return pos[0], link.read_pos
        data = bytes(out.value)
        if data == b"":
            bad("nothing was received")
        if b"\r" in data[:-1]:
            bad("more than a line")
        for at in range(pos[0], pos[1] + 1):
            if stream[at:at + len(data)] == data and at + len(data) <= link.read_pos:
                break
        else:
            bad("the line said %s" % session.short(stream[pos[0]:link.read_pos].hex()))
        if not data.endswith(b"\r") and s.k.now - t0 < s.T:
            bad("the line is not complete, and there was time")
        # the same bytes can stand at several places of an uncertain range
        last = max(x for x in range(pos[0], pos[1] + 1)
                   if stream[x:x + len(data)] == data and x + len(data) <= link.read_pos)
        return at + len(data), last + len(data)


# ===================================================================== C16
CALL_TEXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.-_/"


def call_message(rng, nasty=0.3):
    """A call to dispatching, version 2: -> (application data, expected fields)"""
    exp, out = {}, bytearray()

    def u(name, n, conv=lambda v: v):
        b = blob(rng, n, nasty) if rng.random() < 0.5 else rng.randrange(256 ** n).to_bytes(n, "little")
        out.extend(b)
        exp[name] = conv(int.from_bytes(b, "little"))

    def text(name, n):
        s = "".join(rng.choice(CALL_TEXT) for _ in range(rng.randint(0, n - 1)))
        if len(s) > 4 and rng.random() < 0.2:
            s = s[:2] + rng.choice((" ", "\x8d", "\xe9", "  ", "\t")) + s[4:]
            s = s if len(s) > 4 else s[:2] + "x"
        b = s.encode("latin-1")
        if len(b) < n - 1 and rng.random() < 0.06:     # left over from an earlier, longer text
            b += b"\0" + bytes(rng.randrange(1, 256) for _ in range(n - 1 - len(b)))
        elif rng.random() < 0.05:                      # no room for a terminator
            s = (s + "x" * n)[:n]
            b = s.encode("latin-1")
        out.extend(b.ljust(n, b"\0"))
        exp[name] = s

    def digits(name, n):
        k = rng.choice((1, 2 * n - 1, 2 * n, rng.randint(1, 2 * n)))
        s = str(rng.randint(10 ** (k - 1), 10 ** k - 1))
        if rng.random() < 0.2:
            s = rng.choice(("8", "1", "13", "8" * 4, "1808", "909")) * (k // 4 or 1)
            s = s[:2 * n]
        out.extend(bytes.fromhex(s.rjust(2 * n, "0")))
        exp[name] = s

    def when(name):
        def conv(v):
            return datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=v)
        u(name, 4, conv)
    version = 2
    out.append(version)
    exp["version"] = version
    guid = blob(rng, 16, nasty)
    out.extend(guid)
    exp["guid"] = guid
    text("station_id", 17)
    digits("sim_card_id", 10)
    digits("modem_id", 8)
    p = rng.randrange(4)
    out.append(p)
    exp["protocol"] = p
    u("address_1", 2)
    u("address_2", 1)
    u("signal_strength", 1)
    u("connections", 4)
    when("last_connection_time")
    u("connection_errors", 4)
    when("last_connection_error_time")
    u("resets", 4)
    when("last_reset_time")
    u("tcp_data", 4)
    u("all_data", 4)
    u("serial_number", 4, str)
    ip = blob(rng, 4, nasty)
    out.extend(ip)
    exp["ip_address"] = "%d.%d.%d.%d" % tuple(ip)
    when("last_modem_error_time")
    u("last_modem_error", 1)
    u("modem_battery_capacity", 2)
    u("modem_battery_voltage", 2)
    text("firmware_version", 33)
    body = (len(out) + 2).to_bytes(2, "little") + bytes(out)
    return body, exp


@profile("C16")
class CallIn(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, enc=False)
        ops = []
        for _ in range(gen.several(rng, 1, 3, (30, 90))):
            op = {"op": "call", "c": gen.sd(rng), "s": gen.sd(rng), "sch": gen.sched(rng),
                  "addr": [rng.choice((0, 1, 13, 256, 0x1B8D, 65535)), rng.choice((0, 1, 13, 255)),
                           rng.choice((0, 1, 13, 256, 0x0D1B, 65535)), rng.choice((0, 27, 255))]}
            says, n = [], rng.choice((1, 1, 2, 3))
            for j in range(n):
                x = rng.random()
                it = {"c": gen.sd(rng)}
                if x < 0.5:
                    pass
                elif x < 0.75:
                    it["m"] = gen.damage(rng)
                    if it["m"][-1][0] == "cut":
                        it["m"].append(["ins", 1.0, 0x0D])
                elif x < 0.85:
                    it["hex"] = gen.noise(rng).hex()
                elif x < 0.95:
                    it["short"] = rng.randint(1, 141)     # intact frame, message cut short
                else:
                    it["kind"] = rng.choice((0x84, 0x86, 0x85, 0x87))
                    it["svc"] = rng.choice(sorted(proto.KNOWN_SERVICES | {0x01}))
                if rng.random() < 0.2:
                    it["d"] = rng.choice((0.1, 0.3))
                says.append(it)
            op["says"] = says
            if rng.random() < 0.1:
                op["f"] = [gen.faults_io(rng, c["tr"], ("recv",))]
            ops.append(op)
        return gen.zone(rng, {"cfg": c, "ops": ops})

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        for i, op in enumerate(scn["ops"]):
            tr = s.make_transport(scn["cfg"])
            plan = net.OpPlan(dict(op, f=[]), i)
            s.w.plan = plan
            tr.connect()
            link = s.link()
            truth = {}
            for it in op["says"]:
                cls.say(s, link, plan, op, it, truth)
            plan.faults = list(op.get("f", ()))
            s.k.begin_op()
            calls, part = 0, b""
            lines = session.lines_of(link, 0, s.k.now, s.T)
            for _ in range(400):
                out = s.call(tr.recv)
                s.no_hang({"i": i, "name": "recv", "out": out})
                if out.kind != "val":
                    break
                part += bytes(out.value)      # a slow line comes in pieces
                if part.endswith(b"\r"):
                    calls += cls.line(s, i, part, truth)
                    part = b""
            good_lines = sum(1 for l, _, _ in lines if cls.wanted(l, truth) is not None)
            if not op.get("f") and calls != good_lines:
                raise Violation(i, "%d calls were decoded, %d arrived" % (calls, good_lines))
            plan.faults = []
            s.call(tr.disconnect)
            s.results.append({"i": i, "op": op, "name": "call", "t0": 0, "t1": s.k.now,
                              "out": session.Outcome("val", calls)})
        s.unchanged()

    @classmethod
    def say(cls, s, link, plan, op, it, truth):
        rng = random.Random("%s/call" % it["c"])
        if "hex" in it:
            wire = bytes.fromhex(it["hex"])
            s.k.fault("line_noise")
        else:
            data, exp = call_message(rng)
            if "short" in it:
                data = data[:len(data) - it["short"]]
                s.k.fault("message_cut_short")
            fr = proto.frame(it.get("kind", proto.REQ), it.get("svc", proto.SVC["call"]), data,
                             tuple(op["addr"]))
            if "short" not in it:
                truth[fr] = (data, exp)
            wire = proto.escape(fr)
            if "m" in it:
                wire = devmod.mangle(wire, it["m"])
                s.k.fault("call_corrupted")
        link.emit(wire, int(it.get("d", 0) * s.T), plan)

    @classmethod
    def wanted(cls, line, truth):
        """The fields of the call a line carries, if it carries one for sure."""
        try:
            f = proto.parse(proto.unescape(line))
        except proto.Bad:
            return None
        if f.kind != proto.REQ or f.service != proto.SVC["call"]:
            return None
        fr = proto.unescape(line)
        return truth.get(fr)

    @classmethod
    def line(cls, s, i, line, truth):
        """What a dispatching server does with a line. -> 1 if a call came out of it"""
        def decode():
            frame = E.frames.Request.from_bytes(E.utils.return_characters(line))
            if frame.service != E.constants.ServiceNumber.CALL:
                raise ValueError("not a call")
            return frame, E.application.CallRequest.from_bytes(frame.data)
        out = s.call(decode)
        key = "call:%s" % ("val" if out.kind == "val" else out.mro[0])
        s.counts[key] = s.counts.get(key, 0) + 1
        s.k.note(key)
        want = cls.wanted(line, truth)
        if out.kind != "val":
            if want is not None:
                raise Violation(i, "an intact call message is rejected: %s" % out.text)
            return 0
        if want is None:
            # a changed line can only pass if its redundancy and layout still fit
            want = cls.lenient(line)
            if want is None:
                raise Violation(i, "a line that is no intact call message is decoded: %s" % (
                    session.short(line.hex())))
            if want == "any":
                return 0
        data, exp = want
        fr, call = out.value
        bad = generic_check(exp)(call)
        if bad:
            raise Violation(i, "call message: %s" % bad)
        s.kept.append((i, "the server", generic_check(exp), call))
        f = proto.parse(proto.unescape(line))
        got = (fr.destination_address_1, fr.destination_address_2, fr.source_address_1,
               fr.source_address_2)
        if got != f.addr or bytes(fr.data) != f.data:
            raise Violation(i, "call message addressed %s is reported with %s" % (f.addr, got))
        return 1

    @classmethod
    def lenient(cls, line):
        for cand in proto._lenient(line):
            try:
                f = proto.parse(cand)
            except proto.Bad:
                continue
            if f.kind == proto.REQ and f.service == proto.SVC["call"] and len(f.data) >= 141:
                return "any"
        return None


# ===================================================================== C17
class Bus:
    """Several meters on one line: each hears everything."""

    def __init__(self, meters):
        self.meters = meters
        self.T = meters[0].T
        self.only = None                # the only one that is switched on

    def on_line(self, link, line, plan):
        for m in self.meters:
            if self.only in (None, m):
                m.on_line(link, line, plan)


class BusSession(Session):
    def make_device(self, cfg):
        self.meters = []
        for a in cfg["bus"]:
            m = devmod.Meter(self.w, dict(cfg, enc=a.get("enc")), serial_addr=tuple(a["at"]))
            m.salt = "%s" % (a["at"],)
            self.meters.append(m)
        self.bus = Bus(self.meters)
        return self.meters[0]

    def place(self, dev):
        super().place(self.bus)

    def link(self):
        live = [l for l in self.w.links if not l.closed]
        return live[-1] if live else None


@profile("C17")
class MultiDrop(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, tr=rng.choice(("serial", "tcp")))
        n = rng.randint(2, 4)
        pool1 = [1, 2, 13, 27, 141, 255, 256, 257, 512, 0x0D00, 0x0D0D, 0x1B8D, 65535,
                 rng.randint(1, 65535)]
        pool2 = [1, 2, 13, 27, 141, 255, rng.randint(1, 255)]
        a1, a2 = rng.sample(pool1, n), [rng.choice(pool2) for _ in range(n)]
        if rng.random() < 0.3:             # told apart by the second address only
            a1 = [a1[0]] * n
            a2 = rng.sample(pool2, n) if len(set(pool2)) >= n else [1, 2, 3, 4][:n]
        if rng.random() < 0.3:             # bytes in the other order
            x = rng.choice((0x0102, 0x0D0E, 0x8D1B, 0x0001, 0x00FF))
            a1[0], a1[1] = x, (x >> 8) | (x & 255) << 8
        at = list(zip(a1, a2))
        if len(set(at)) < n:
            at = [(j + 1, 1) for j in range(n)]
        c["bus"] = []
        for a in at:
            b = {"at": list(a)}
            if c["enc"]:
                b["enc"] = c["enc"]
            c["bus"].append(b)
        src = [rng.choice((0, 1, 256, 0x0D1B, 65535)), rng.choice((0, 1, 255, 13))]
        ops = []
        alone = rng.random() < 0.25
        for _ in range(gen.several(rng, 2, 5)):
            j = rng.randrange(n)
            op = gen.base(rng, rng.choice(gen.OPS))
            op["to"] = j
            dest = list(at[j])
            if rng.random() < 0.15:
                for z in (0, 1):           # leave out an address that is not needed
                    d = list(dest)
                    d[z] = 0
                    if sum(cls.hears(d, x) for x in at) == 1:
                        dest = d
                        break
            if alone and rng.random() < 0.5:     # the others are switched off: any of its names will do
                op["alone"] = 1
                dest = [rng.choice((0, 0, d)) for d in at[j]]
            op["addr"] = dest + src
            if rng.random() < 0.15:
                op["req"] = [[raw(gen.noise(rng)), good(rng)]]
            ops.append(op)
        c["addr"] = [0, 0, 0, 0]
        return {"cfg": c, "ops": ops}

    @staticmethod
    def hears(dest, at):
        return dest[0] in (0, at[0]) and dest[1] in (0, at[1])

    @classmethod
    def run(cls, scn, box, trace=False):
        s = BusSession.__new__(BusSession)
        box["s"] = s
        s.__init__(scn, trace)
        s.start()
        transport = s.client.transport
        clients = {}
        transport_up = False
        for i, op in enumerate(scn["ops"]):
            dest = tuple(op["addr"])
            if dest not in clients:
                clients[dest] = s.make_client(dict(s.cfg, addr=op["addr"]), transport=transport)
            s.client = clients[dest]
            s.cfg = dict(s.cfg, addr=op["addr"])
            s.dev = s.meters[op["to"]]
            s.bus.only = s.dev if op.get("alone") else None
            if not transport_up:
                r = s.step(i, {"op": "connect"})
                if r["out"].kind != "val":
                    raise Violation(i, "connect %s without a fault" % r["out"].text)
                transport_up = True
            for m in s.meters:
                m.mark = len(m.journal)
            r = s.step(i, op)
            if "req" in op:
                s.check_outcome(r)
            else:
                s.want_value(r)
            s.check_requests(r)
            for m in s.meters:
                for e in m.journal[m.mark:]:
                    if m is not s.dev and e["bad"] is None:
                        raise Violation(i, "%s for the meter at %s was taken by the one at %s" % (
                            op["op"], s.dev.address, m.address))
            if r["out"].kind != "val":
                # hand the line to the next client the way one does after a failure
                cls.reconnect(s, i)
