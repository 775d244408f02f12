"""The simulated meter.  It decodes what the client sends with its own codec (proto.py), keeps a
journal of every line it received, and answers as the scenario's operation says."""
import calendar
import random

from . import params, proto
from .kernel import US

NASTY = b"\x0d\x1b\x8d\x0e\x0f\x02\xfe\x00\xff\x86\x87"


def blob(rng, n, nasty=0.3):
    """Payload bytes, rich in what the wire format treats specially."""
    if rng.random() < 0.15:
        b = rng.choice(NASTY)
        return bytes([b]) * n
    return bytes(rng.choice(NASTY) if rng.random() < nasty else rng.randrange(256) for _ in range(n))


def any_time(rng):
    y = 2000 + rng.choice((0, 13, 21, 24, 99, rng.randrange(100)))
    mo = rng.choice((1, 2, 12, rng.randint(1, 12)))
    last = calendar.monthrange(y, mo)[1]
    return [y, mo, rng.choice((1, last, rng.randint(1, last), rng.randint(1, last))), rng.choice((0, 23, 13, rng.randrange(24))),
            rng.choice((0, 59, 13, rng.randrange(60))), rng.choice((0, 59, 13, rng.randrange(60)))]


class Meter:
    def __init__(self, world, cfg, name="meter", serial_addr=None):
        self.w, self.cfg, self.name = world, cfg, name
        self.T = int(cfg["T"] * US)
        self.cipher = (bytes.fromhex(cfg["enc"]["key"]), cfg["enc"]["kid"]) if cfg.get("enc") else None
        self.accept = cfg.get("dev_enc")   # the keys the meter has, if they differ from the client's
        if self.accept:
            self.cipher = (bytes.fromhex(self.accept["key"]), self.accept["kid"])
        self.address = serial_addr          # (address 1, address 2) on a shared line
        self.clock = None                   # last time written
        self.journal = []
        self.pages = {}                     # data of a page -> expected objects
        self.fooled = set()                # operations that got an undetectably damaged answer
        self.said = []                      # (op index, frame sent) of intact answers

    # -- receiving
    def on_line(self, link, line, plan):
        e = {"op": plan.index, "t": self.w.k.now, "line": line, "bad": None, "link": link}
        self.journal.append(e)
        try:
            fr = proto.parse(proto.unescape(line))
            if fr.kind == proto.REQ:
                data = fr.data
            elif fr.kind == proto.EREQ and self.cipher:
                data = proto.decrypt(fr.data, *self.cipher)
            else:
                raise proto.Bad("frame type %#x" % fr.kind)
            e.update(kind=fr.kind, service=fr.service, addr=fr.addr, data=data)
            if self.address and not self._addressed(fr.addr):
                e["bad"] = "not addressed"
                return
            e["pw"], e["fields"] = proto.parse_request(fr.service, data)
        except proto.Bad as x:
            e["bad"] = "malformed: %s" % x
            self.w.k.note("dev?")
            return
        self.w.k.note("dev:%d" % e["service"])
        n = plan.requests
        plan.requests += 1
        reqs = plan.op.get("req", ())
        items = reqs[n] if n < len(reqs) else [{"k": "good"}]
        self.answer(link, plan, e, items, n)

    def _addressed(self, addr):
        return addr[0] in (0, self.address[0]) and addr[1] in (0, self.address[1])

    # -- answering
    def answer(self, link, plan, e, items, n):
        op = plan.op
        if e["service"] == proto.SVC["write_time"] and op.get("apply", True):
            e["applied"] = self.clock = e["fields"]["time"]
        for it in items:
            rng = random.Random("%s/%s" % (op.get("c", 0), n))  # a repeated answer is the same
            delay = int(it.get("d", 0) * self.T)
            k = it["k"]
            if k == "good":
                data = self.payload(e["service"], e["fields"], op, n, rng)
                self.send(link, plan, e["service"], data, delay, rng, it)
            elif k == "other":
                r2 = random.Random("%s/%s/other" % (it.get("c", 0), it["svc"]))
                f2 = {"first": 0, "buffer": 1024, "archive": r2.randrange(11),
                      "id": r2.randrange(2 ** 32), "amount": 1}
                data = self.payload(it["svc"], f2, it, 0, r2)
                self.send(link, plan, it["svc"], data, delay, r2, it)
            elif k == "err":
                self.send(link, plan, it.get("svc", e["service"]), bytes([it["code"]]), delay, rng, it)
            elif k == "page":     # a page of another request (late or repeated)
                f2 = dict(e["fields"], first=e["fields"]["first"] + it["by"])
                if e["service"] == proto.SVC["read_parameters"] and f2["first"] >= 0:
                    data = self.payload(e["service"], f2, op, n, rng)
                    self.send(link, plan, e["service"], data, delay, rng, it)
            elif k == "raw":
                self.w.k.fault("line_noise")
                link.emit(bytes.fromhex(it["hex"]) * it.get("rep", 1), delay, plan)
            elif k in ("eof", "rst"):
                link.emit(k, delay, plan)
            elif k == "data":     # a response with this payload
                self.send(link, plan, it.get("svc", e["service"]), bytes.fromhex(it["hex"]), delay,
                          rng, it)
            else:
                raise ValueError("answer of kind %s" % k)

    def send(self, link, plan, service, data, delay, rng, it):
        kind = proto.RSP
        if "to" in it:            # too short for its fields
            data = data[:it["to"]]
            self.w.k.fault("short_answer")
        addr = (0, 0) + (tuple(self.address) if self.address else (0, 0))
        if self.cipher and it.get("enc", True):
            kind = proto.ERSP
            with_key = self.cipher
            if "key" in it:       # encrypted with another key, or under another key id
                with_key = (bytes.fromhex(it["key"]["key"]), it["key"]["kid"])
                self.w.k.fault("reply_under_wrong_key")
            data = proto.encrypt(data, with_key[0], with_key[1], rng)
            if "ct" in it:        # tamper with the encrypted part, redundancy recomputed
                data = mangle(data, it["ct"])
                self.w.k.fault("ciphertext_tampered")
        fr = proto.frame(kind, service, data, addr)
        self.said.append((plan.index, fr))
        wire = proto.escape(fr)
        if "m" in it:
            wire = mangle(wire, it["m"])
            self.w.k.fault("reply_corrupted")
            if self.passes(wire, fr):
                # the damage is one the three check bytes can not show: nobody could tell
                self.fooled.add(plan.index)
        if it.get("x"):
            self.w.k.fault("reply_duplicated")
        if delay:
            self.w.k.fault("reply_delayed")
        link.emit(wire, delay, plan)

    @staticmethod
    def passes(wire, fr):
        for part in wire.split(b"\r"):
            for cand in proto._lenient(part + b"\r"):
                try:
                    proto.parse(cand)
                except proto.Bad:
                    continue
                if cand != fr:
                    return True
        return False

    # -- content
    def payload(self, service, f, op, n, rng):
        S = proto.SVC
        if service == S["read_time"]:
            t = any_time(rng)
            return (proto.time_bytes(t, rng.random() < 0.5, rng.random() < 0.5)
                    + bytes([rng.randrange(256)]) + blob(rng, rng.choice((0, 0, 1, 5, 40)))
                    + bytes(rng.randrange(256) for _ in range(2)))
        if service == S["read_instantaneous_values"]:
            t = any_time(rng)
            size = rng.choice((0, 1, 13, 100, 300, rng.randrange(600), 1200))
            return (proto.time_bytes(t, rng.random() < 0.5, rng.random() < 0.5) + blob(rng, size)
                    + blob(rng, 1) + blob(rng, 8) + blob(rng, 8) + blob(rng, 2))
        if service == S["write_time"]:
            return rng.choice((b"\0", b"\0", b"\0", b"", blob(rng, rng.randint(2, 12))))
        if service in (S["read_archive"], S["read_archive_by_time"]):
            rec = f.get("id", rng.choice((0, 255, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 32 - 1,
                                          rng.randrange(2 ** 32))))
            if rng.random() < 0.2:     # the oldest one it still has
                rec = rng.randrange(2 ** 32)
            size = rng.choice((0, 1, 12, 26, 200, 240, 253, 1000, rng.randrange(500),
                               rng.choice((1000, 2030, 4100, 9000))))
            if op.get("huge") and service == S["read_archive"]:
                size = rng.choice((32750, 33000, 65400))
            return bytes([f["archive"]]) + rec.to_bytes(4, "little") + blob(rng, size)
        if service == S["read_parameters"]:
            return self.page(f, op, n)
        raise ValueError("no answer for service %s" % service)

    def objects(self, op):
        """The configuration from object number op["base"] on, as [(bytes, expected)]."""
        key = id(op)
        if getattr(self, "_objs", (None,))[0] != key:
            if "types" in op:
                kinds = op["types"]
            else:
                rng = random.Random("%s/cfg" % op.get("c", 0))
                kinds = [rng.choice(params.TYPE_LIST) for _ in range(op.get("count", 5))]
            p = op.get("alike") or len(kinds)     # after p objects the same ones follow again
            objs = [params.build(k, random.Random("%s/obj/%d/%d" % (op.get("c", 0), i % p, k)))
                    for i, k in enumerate((kinds[:p] * len(kinds))[:len(kinds)] if kinds else ())]
            if op.get("spoil") and objs:
                how, n, junk = op["spoil"]
                at = len(objs) - 1 if how in ("torn", "beyond", "rest", "length") else n // 7 % len(objs)
                k = (kinds[:p] * len(kinds))[at]
                raw, exp, self.may = params.spoil(
                    k, random.Random("%s/obj/%d/%d" % (op.get("c", 0), at % p, k)), how, n, bytes.fromhex(junk))
                objs[at] = (raw, exp)
                self.w.k.fault("spoilt_object")
            self._objs = (key, objs)
        return self._objs[1]

    def page(self, f, op, n):
        objs = self.objects(op)
        i = f["first"] - op.get("base", 0)
        if i < 0 or i > len(objs):
            return f["first"].to_bytes(2, "little") + b"\0\0\1"
        rng = random.Random("%s/page/%d" % (op.get("c", 0), i))
        most = rng.randint(1, 3) if op.get("small_pages") else 10 ** 6
        data, took = b"", []
        while i + len(took) < len(objs) and len(took) < most:
            raw, exp = objs[i + len(took)]
            if len(data) + len(raw) + 5 > f["buffer"]:
                break
            data += raw
            took.append(exp)
        end = i + len(took) >= len(objs)
        if end and took and op.get("lazy_end"):
            end = False               # the end is only announced by a last, empty page
        if n in op.get("empty_at", ()):
            data, took, end = b"", [], False
            self.w.k.fault("empty_page")
        self.pages[(f["first"], data)] = took
        return (f["first"].to_bytes(2, "little") + len(took).to_bytes(2, "little")
                + bytes([1 if end else 0]) + data)


def mangle(wire, muts):
    """Apply [kind, position (0..1), value] changes to a line."""
    w = bytearray(wire)
    for kind, pos, val in muts:
        if kind.startswith("seal-"):      # damage that the check bytes were made from
            fr = proto.unescape(bytes(w), strict=False)
            fr = mangle(fr[:-4], [[kind[5:], pos, val]])
            w = bytearray(proto.escape(proto.reseal(fr + bytes(4))))
            continue
        i = min(int(pos * len(w)), len(w) - 1) if w else 0
        if kind == "flip" and w:
            w[i] ^= val
        elif kind == "set" and w:
            w[i] = val
        elif kind == "drop" and w:
            del w[i:i + max(1, val)]
        elif kind == "ins":
            w[i:i] = bytes([val])
        elif kind == "cut":
            del w[i:]
        elif kind == "dup" and w:
            w[i:i] = w[i:i + max(1, val)]
        elif kind == "swap" and i + 1 < len(w):
            w[i], w[i + 1] = w[i + 1], w[i]
    return bytes(w)
