"""Profiles C20 and C21: the library on the other side of the line."""
import random

from . import device as devmod
from . import gen, net, proto, session
from .props import Base, generic_check, good, profile
from .props2 import call_message
from .session import E, Session, Violation


# ===================================================================== C20
class Caller(devmod.Meter):
    """A meter that called, and waits for the answer to its call."""

    def on_line(self, link, line, plan):
        try:
            fr = proto.parse(proto.unescape(line))
        except proto.Bad:
            fr = None
        if fr is not None and fr.kind not in (proto.REQ, proto.EREQ):
            self.replies.append(fr)
            return
        super().on_line(link, line, plan)


class CallSession(Session):
    def make_device(self, cfg):
        dev = Caller(self.w, cfg)
        dev.replies = []
        return dev


ADDR1 = (0, 1, 13, 27, 141, 255, 256, 0x1B8D, 0x0D1B, 65535)
ADDR2 = (0, 1, 13, 27, 141, 255)


@profile("C20")
class Dispatch(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng)
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            op = {"op": "call", "c": gen.sd(rng), "s": gen.sd(rng), "sch": gen.sched(rng),
                  "addr": [rng.choice(ADDR1), rng.choice(ADDR2), rng.choice(ADDR1),
                           rng.choice(ADDR2)]}
            if rng.random() < 0.3:
                op["noise"] = [gen.noise(rng).hex() for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.2:
                op["twice"] = 1          # the device repeats its call before it hears the answer
            if rng.random() < 0.3:
                op["again"] = 1          # connecting what is connected already
            if rng.random() < 0.1:
                op["f"] = [gen.faults_io(rng, c["tr"])]
            ops.append(op)
            for _ in range(gen.several(rng, 0, 3, (30,))):
                op = gen.base(rng, rng.choice(gen.OPS))
                x = rng.random()
                if x < 0.1:
                    op["f"] = [gen.faults_io(rng, c["tr"])]
                elif x < 0.2:
                    op["req"] = [[{"k": "raw", "hex": gen.noise(rng).hex()}, good(rng)]]
                elif x < 0.27:
                    op["req"] = [[]]
                ops.append(op)
            x = rng.random()
            if x < 0.6:
                ops.append({"op": "disconnect"})
                if rng.random() < 0.3:
                    ops[-1]["f"] = [gen.disconnect_fault(rng, c["tr"])]
                if rng.random() < 0.5:       # and on its own account
                    ops += [{"op": "connect"}, gen.base(rng, rng.choice(gen.OPS)),
                            {"op": "disconnect"}]
        return {"cfg": c, "ops": ops}

    @classmethod
    def run(cls, scn, box, trace=False):
        s = CallSession.__new__(CallSession)
        box["s"] = s
        s.__init__(scn, trace)
        s.start()
        up = False
        for i, op in enumerate(scn["ops"]):
            if op["op"] == "call":
                if up:
                    cls.down(s, i)
                up = cls.call(s, i, op)
                continue
            if op["op"] == "connect":
                if up:
                    continue
            elif not up:
                continue
            r = s.step(i, op)
            s.no_hang(r)
            out = r["out"]
            if op["op"] == "connect":
                if out.kind != "val":
                    raise Violation(i, "connect after disconnect %s" % out.text)
                if s.w.wrong_places:
                    raise Violation(i, "connect went to %s" % (s.w.wrong_places,))
                up = True
            elif op["op"] == "disconnect":
                if out.kind != "val" and not (op.get("f") and out.is_comm):
                    raise Violation(i, "disconnect %s" % out.text)
                cls.closed(s, i)
                up = False
            else:
                if op.get("f"):
                    s.check_outcome(r, [("comm", None)])
                elif op.get("req") == [[]]:
                    s.check_outcome(r)
                else:
                    s.want_value(r)
                    s.check_requests(r)
                if out.kind != "val":
                    cls.reconnect(s, i)
        if up:
            cls.down(s, len(scn["ops"]))

    @classmethod
    def closed(cls, s, i):
        if s.w.open_handles:
            raise Violation(i, "disconnect left the handle open")

    @classmethod
    def down(cls, s, i):
        r = s.step(i, {"op": "disconnect"})
        s.no_hang(r)
        if r["out"].kind != "val" and not r["out"].is_comm:
            raise Violation(i, "disconnect %s" % r["out"].text)
        cls.closed(s, i)

    @classmethod
    def call(cls, s, i, op):
        """The device calls in, the server answers. -> connected"""
        rng = random.Random("%s/call" % op["c"])
        random.seed("%s/lib" % op["c"])
        plan = net.OpPlan(dict(op, f=[]), i)
        s.w.plan = plan
        tr = s.make_transport(s.cfg)
        tr.connect()
        link = s.link()
        data, exp = call_message(rng)
        wire = proto.escape(proto.frame(proto.REQ, proto.SVC["call"], data, tuple(op["addr"])))
        for h in op.get("noise", ()):
            s.k.fault("line_noise")
            link.emit(bytes.fromhex(h), 0, plan)
        for _ in range(2 if op.get("twice") else 1):
            link.emit(wire, 0, plan)
        plan.faults = list(op.get("f", ()))
        s.k.begin_op()
        t0 = s.k.now
        s.client = s.make_client(s.cfg, transport=tr)
        if op.get("again"):
            before = s.w.open_handles
            out = s.call(s.client.connect)
            s.no_hang({"i": i, "name": "connect", "out": out})
            if out.kind == "val" or s.w.open_handles != before or s.link() is not link:
                raise Violation(i, "connecting a transport that has a connection %s" % out.text)
        out, got, line = None, None, b""
        for _ in range(400):
            out = s.call(tr.recv)
            s.no_hang({"i": i, "name": "recv", "out": out})
            if out.kind != "val":
                break
            line += bytes(out.value)      # a slow line comes in pieces
            if not line.endswith(b"\r"):
                continue
            try:
                frame = E.frames.Request.from_bytes(E.utils.return_characters(line))
                if frame.service != E.constants.ServiceNumber.CALL:
                    raise ValueError("not a call")
                got = frame, E.application.CallRequest.from_bytes(frame.data)
            except Exception:
                line = b""
                continue
            break
        faulty = bool(op.get("f"))
        if got is None:
            if not faulty:
                raise Violation(i, "the call is not received: %s" % (out.text if out else "-"))
            if not out.is_comm:
                raise Violation(i, "receiving the call %s" % out.text)
        else:
            frame, msg = got
            bad = generic_check(exp)(msg)
            if bad:
                raise Violation(i, "call message: %s" % bad)
            out = s.call(lambda: tr.send(E.utils.escape_characters(E.frames.Response(
                service=E.constants.ServiceNumber.CALL,
                destination_address_1=frame.source_address_1,
                destination_address_2=frame.source_address_2,
                source_address_1=frame.destination_address_1,
                source_address_2=frame.destination_address_2,
                data=E.application.CallResponse().to_bytes()).to_bytes())))
            s.no_hang({"i": i, "name": "send", "out": out})
            if out.kind != "val" and not (faulty and out.is_comm):
                raise Violation(i, "answering the call %s" % out.text)
        ok = got is not None and out.kind == "val"
        s.k.drain(max(s.k.now, link.in_free_at, link.free_at))
        if ok:
            d1, d2, s1, s2 = op["addr"]
            if len(s.dev.replies) != 1:
                raise Violation(i, "the device got %d answers to its call" % len(s.dev.replies))
            fr = s.dev.replies[0]
            if (fr.kind, fr.service, fr.addr, fr.data) != (
                    proto.RSP, proto.SVC["call"], (s1, s2, d1, d2), b""):
                raise Violation(i, "the device got as an answer to its call kind %#x service %#x "
                                "addresses %s data %s" % (fr.kind, fr.service, fr.addr,
                                                          fr.data.hex()))
        elif s.dev.replies and out.kind == "val":
            raise Violation(i, "an answer to a call that was not received")
        s.dev.replies.clear()
        plan.faults = []
        s.results.append({"i": i, "op": op, "name": "call", "t0": t0, "t1": s.k.now, "out": out})
        key = "call:%s" % ("answered" if ok else out.mro[0] if out.mro else "none")
        s.counts[key] = s.counts.get(key, 0) + 1
        s.k.note(key)
        if not ok:
            cls.down(s, i)
        return ok


# ===================================================================== C21
class LibraryMeter(devmod.Meter):
    """A meter whose wire format is the library's, held against the reference line by line."""

    def on_line(self, link, line, plan):
        muts = plan.op.get("up", {}).get(str(plan.requests))
        if muts and not getattr(plan, "mangled", False):
            plan.mangled = True
            line = devmod.mangle(line, muts)
            self.w.k.fault("request_corrupted")
        *lines, rest = line.split(b"\r")
        good = 0
        for part in lines:
            part += b"\r"
            if self.understand(part):
                good += 1
                self.twice = self.twice or good > 1     # a duplicate may have left it intact, twice
                super().on_line(link, part, plan)
        if rest:
            self.understand(rest)

    def understand(self, line):
        """The library reads the line. -> it is intact"""
        try:
            if not line.endswith(b"\r"):
                raise proto.Bad("no end character")
            want = proto.parse(proto.unescape(line))
            if want.kind != (proto.EREQ if self.cipher else proto.REQ) \
                    or want.service not in proto.KNOWN_SERVICES:
                raise proto.Bad("not a request")
            self.reading(want)      # enciphered data has a redundancy of its own
        except proto.Bad:
            want = None
        cls = E.frames.EncryptedRequest if self.cipher else E.frames.Request
        try:
            got = cls.from_bytes(E.utils.return_characters(line))
            if self.cipher:
                plain = E.security.CipherContext(
                    key=self.cipher[0],
                    key_id=E.security.EncryptionKeyId(self.cipher[1])).decrypt(got.data)
            else:
                plain = got.data
        except Exception as e:
            if want is not None:
                self.wrong.append("an intact request is rejected: %s: %s: %s" % (
                    type(e).__name__, session.short(str(e), 80), session.short(line.hex())))
            return False
        seen = (got.TYPE, int(got.service), got.destination_address_1, got.destination_address_2,
                got.source_address_1, got.source_address_2, bytes(plain))
        if want is None:
            if seen not in list(self.readings(line)):
                self.wrong.append("a damaged request is taken for service %#x: %s" % (
                    seen[1], session.short(line.hex())))
            return False
        if seen != self.reading(want):
            self.wrong.append("a request is read as %s instead of %s" % (seen, self.reading(want)))
            return False
        return True

    def reading(self, f):
        data = f.data
        if f.kind == proto.EREQ:
            data = proto.decrypt(data, *self.cipher)
        return (f.kind, f.service) + tuple(f.addr) + (bytes(data),)

    def readings(self, line):
        if not line.endswith(b"\r"):
            return
        for cand in proto._lenient(line):
            try:
                yield self.reading(proto.parse(cand))
            except proto.Bad:
                pass

    def send(self, link, plan, service, data, delay, rng, it):
        d = tuple(plan.op.get("back") or (0, 0, 0, 0))
        kw = dict(service=E.constants.ServiceNumber(service), destination_address_1=d[0],
                  destination_address_2=d[1], source_address_1=d[2], source_address_2=d[3])
        try:
            if self.cipher:
                secret = E.security.CipherContext(
                    key=self.cipher[0], key_id=E.security.EncryptionKeyId(self.cipher[1])
                ).encrypt(data)
                fr = E.frames.EncryptedResponse(data=secret, **kw).to_bytes()
            else:
                fr = E.frames.Response(data=data, **kw).to_bytes()
            wire = E.utils.escape_characters(fr)
            f = proto.parse(proto.unescape(wire))
            plain = proto.decrypt(f.data, *self.cipher) if self.cipher else f.data
        except Exception as e:
            self.wrong.append("an answer of service %#x is not a good frame: %s: %s" % (
                service, type(e).__name__, session.short(str(e), 80)))
            return
        self.read_back(wire, f, plan.op.get("down"))
        want = (proto.ERSP if self.cipher else proto.RSP, service, d, bytes(data))
        seen = (f.kind, f.service, tuple(f.addr), bytes(plain))
        if seen != want:
            self.wrong.append("an answer %s is put on the line as %s" % (
                session.short(want), session.short(seen)))
        self.said.append((plan.index, fr))
        if delay:
            self.w.k.fault("reply_delayed")
        link.emit(wire, delay, plan)


    def read_back(self, wire, f, muts=()):
        """The library reads the frame it has made."""
        try:
            r = E.frames.ResponseFactory.from_bytes(E.utils.return_characters(wire))
            seen = (r.TYPE, int(r.service), (r.destination_address_1, r.destination_address_2,
                                             r.source_address_1, r.source_address_2), bytes(r.data))
        except Exception as e:
            self.wrong.append("an answer is rejected: %s: %s" % (
                type(e).__name__, session.short(str(e), 80)))
            return
        want = (f.kind, f.service, tuple(f.addr), bytes(f.data))
        if seen != want:
            self.wrong.append("an answer %s is read as %s" % (
                session.short(want), session.short(seen)))
        if not muts:
            return
        # on the way back it is damaged
        bad = devmod.mangle(wire, muts)
        self.w.k.fault("answer_corrupted")
        try:
            r = E.frames.ResponseFactory.from_bytes(E.utils.return_characters(bad))
        except Exception:
            return
        got = (r.TYPE, int(r.service), (r.destination_address_1, r.destination_address_2,
                                        r.source_address_1, r.source_address_2), bytes(r.data))
        for cand in proto._lenient(bad) if bad.endswith(b"\r") else ():
            try:
                f = proto.parse(cand)
            except proto.Bad:
                continue
            if got == (f.kind, f.service, tuple(f.addr), bytes(f.data)):
                return
        self.wrong.append("a damaged answer is taken for service %#x: %s" % (
            got[1], session.short(bad.hex())))


class MirrorSession(Session):
    def make_device(self, cfg):
        dev = LibraryMeter(self.w, cfg)
        dev.wrong = []
        dev.twice = False
        return dev


@profile("C21")
class Mirror(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng)
        if rng.random() < 0.7:
            c["addr"] = [rng.choice(ADDR1), rng.choice(ADDR2), rng.choice(ADDR1),
                         rng.choice(ADDR2)]
        ops = []
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))
            x = rng.random()
            if x < 0.35:
                n = rng.randint(0, 2) if op["op"] == "read_parameters" else 0
                op["up"] = {str(n): gen.damage(rng)}
            elif x < 0.45:
                op["req"] = [[{"k": "err", "code": rng.choice((1, 2, 4, 8, 16, 32, 64, 128))}]]
            if rng.random() < 0.7:
                op["back"] = [rng.choice(ADDR1), rng.choice(ADDR2), rng.choice(ADDR1),
                              rng.choice(ADDR2)]
            if op["op"] == "read_archive" and rng.random() < 0.02:
                op["huge"] = 1
            if rng.random() < 0.4:
                op["down"] = gen.damage(rng)
            ops.append(op)
        return {"cfg": c, "ops": [{"op": "connect"}] + ops + [{"op": "disconnect"}]}

    @classmethod
    def run(cls, scn, box, trace=False):
        s = MirrorSession.__new__(MirrorSession)
        box["s"] = s
        s.__init__(scn, trace)
        s.start()
        for i, op in enumerate(scn["ops"]):
            r = s.step(i, op)
            s.no_hang(r)
            if op["op"] in ("connect", "disconnect"):
                cls.lifecycle(s, r)
                continue
            if r["link"] is None:
                raise Violation(i, "%s: there is no connection after connect" % op["op"])
            s.k.drain(max(s.k.now, r["link"].in_free_at))
            if s.dev.wrong:
                raise Violation(i, "%s: %s" % (op["op"], s.dev.wrong[0]))
            if op.get("up") or op.get("req"):
                s.check_outcome(r)
            else:
                s.want_value(r)
                s.check_requests(r)
            if r["out"].kind != "val" or s.dev.twice:
                s.dev.twice = False
                cls.reconnect(s, i)
