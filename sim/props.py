"""One profile per property: how its scenarios are generated, and what is checked on them."""
import random

from . import gen, net, params, proto, session
from .device import Meter, any_time, blob
from .kernel import US, Scheduler, SimHang
from .session import E, Session, Violation

PROFILES = {}


def profile(pid):
    def put(cls):
        PROFILES[pid] = cls
        cls.pid = pid
        return cls
    return put


class Base:
    """gen(rng) -> scenario without prop and seed; run(scn, box, trace) raises Violation."""

    @classmethod
    def open(cls, scn, box, trace):
        s = Session.__new__(Session)
        box["s"] = s
        s.__init__(scn, trace)
        s.start()
        return s

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        for i, op in enumerate(scn["ops"]):
            r = s.step(i, op)
            s.no_hang(r)
            if op["op"] in ("connect", "disconnect"):
                cls.lifecycle(s, r)
            elif op["op"] == "recover":
                cls.recover(s, r)
            else:
                cls.check(s, r)
        s.unchanged()

    @classmethod
    def lifecycle(cls, s, r):
        if r["out"].kind != "val":
            raise Violation(r["i"], "%s %s without a fault" % (r["name"], r["out"].text))
        if r["name"] == "disconnect" and s.w.open_handles:
            raise Violation(r["i"], "disconnect left the handle open")

    @classmethod
    def reconnect(cls, s, i=None):
        """disconnect and connect the way a user does after a failure, without further faults."""
        i = len(s.results) if i is None else i
        r = s.step(i, {"op": "disconnect"})
        s.no_hang(r)
        if r["out"].kind != "val" and not r["out"].is_comm:
            raise Violation(i, "disconnect after a failure %s" % r["out"].text)
        r = s.step(i, {"op": "connect"})
        s.no_hang(r)
        if r["out"].kind != "val":
            raise Violation(i, "connect after disconnect %s" % r["out"].text)


def wrap(ops):
    return [{"op": "connect"}] + ops + [{"op": "disconnect"}]


def good(rng, delays=True):
    it = {"k": "good"}
    if delays and rng.random() < 0.3:
        it["d"] = rng.choice((0.05, 0.1, 0.2))
    return it


def raw(b, d=0):
    it = {"k": "raw", "hex": b.hex()}
    if d:
        it["d"] = d
    return it


def flood(rng):
    """Noise lines by the hundreds."""
    it = raw(rng.choice((b"\r", b"\r", b"\x00\r", b"\x02\xfe\r", b"\x1b\r")))
    it["rep"] = rng.choice((12, 40, 70, 300, 1100, 2200))
    return it


def npages(rng):
    return rng.randint(1, 4)


def per_request(op, rng, make):
    """A list of answers for each of the first requests of the operation."""
    n = npages(rng) if op["op"] == "read_parameters" else 1
    op["req"] = [make() for _ in range(n)]
    return op


# ===================================================================== C01
@profile("C01")
class Exact(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        for _ in range(gen.several(rng, 1, 5)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def make():
                items = [good(rng)]
                if rng.random() < 0.15:
                    items.insert(0, raw(b"\r" * rng.choice((1, 1, 2)), rng.choice((0, 0.1))))
                if rng.random() < 0.15:
                    items.append(raw(b"\r" * rng.choice((1, 1, 3)), rng.choice((0, 0.2))))
                return items
            per_request(op, rng, make)
            if rng.random() < 0.1:
                op["jump"] = gen.jumps(rng)
            if op["op"] == "read_archive" and rng.random() < 0.02:
                op["huge"] = 1
            ops.append(op)
            if rng.random() < 0.1 and "huge" not in op:      # the same again, with the same answer
                ops.append(dict(op, r=gen.sd(rng), s=gen.sd(rng)))
        scn = {"cfg": gen.cfg(rng, own=True), "ops": wrap(ops)}
        if rng.random() < 0.03:
            scn["loud"] = 1          # everything is logged and rendered
        if rng.random() < 0.04:
            scn["cfg"]["forever"] = 1    # no time limit
        return gen.zone(rng, scn)

    @classmethod
    def run(cls, scn, box, trace=False):
        if not scn.get("loud"):
            return super().run(scn, box, trace)
        E.load()
        E.loud(session.Nothing())
        try:
            super().run(scn, box, trace)
        finally:
            E.quiet()

    @classmethod
    def check(cls, s, r):
        s.want_value(r)
        s.check_requests(r)


# ===================================================================== C02
@profile("C02")
class Corruption(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def bad():
                it = good(rng)
                if c["enc"] and rng.random() < 0.3:
                    it["ct"] = gen.mutations(rng)
                else:
                    it["m"] = gen.damage(rng)
                return it

            def make():
                items = [bad() for _ in range(rng.choice((1, 1, 2, 3)))]
                if rng.random() < 0.3:
                    items.append(good(rng))
                if rng.random() < 0.2:
                    items.insert(0, raw(gen.noise(rng, rng.random() < 0.5)))
                return items
            per_request(op, rng, make)
            ops.append(op)
        return {"cfg": c, "ops": wrap(ops)}

    @classmethod
    def check(cls, s, r):
        s.check_outcome(r, [("anyexc", None)])
        if r["out"].kind != "val":
            cls.reconnect(s)


# ===================================================================== C03
@profile("C03")
class Noise(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def bad():
                if rng.random() < 0.5:
                    return raw(gen.noise(rng), rng.choice((0, 0, 0.1)))
                it = good(rng)
                it["m"] = gen.mutations(rng)
                if it["m"][-1][0] == "cut":     # a lost tail, but the end character gets through
                    it["m"].append(["ins", 1.0, 0x0D])
                return it

            def make():
                items = [bad() for _ in range(rng.choice((1, 1, 2, 3, 5)))] + [good(rng)]
                if rng.random() < 0.2:
                    items.append(raw(gen.noise(rng)))
                return items
            per_request(op, rng, make)
            if rng.random() < 0.2:
                op["pre"] = [raw(gen.noise(rng))]
            if rng.random() < 0.015:
                op["req"][0].insert(rng.randrange(len(op["req"][0])), flood(rng))
                op["sch"] = [0, 0]
            if rng.random() < 0.05:
                op["jump"] = gen.jumps(rng)
            ops.append(op)
        return {"cfg": c, "ops": wrap(ops)}

    @classmethod
    def check(cls, s, r):
        s.check_outcome(r)
        if r["out"].kind != "val":      # noise ran into the answer, or looked like one
            cls.reconnect(s)


# ===================================================================== C04
@profile("C04")
class Parameters(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        for _ in range(rng.randint(1, 2)):
            op = gen.base(rng, "read_parameters")
            op["count"] = rng.choice((0, 1, 2, 5, 10, 20, rng.randint(1, 40)))
            if rng.random() < 0.004:
                op["count"] = rng.choice((130, 300))
            if rng.random() < 0.3:
                op["types"] = [rng.choice(params.TYPE_LIST)] * rng.randint(1, 6)
            if rng.random() < 0.15:
                op["alike"] = rng.choice((1, 1, 1, 2, 3))
            if rng.random() < 0.05:
                op["empty_at"] = [rng.randrange(3)]
            x = rng.random()
            if x < 0.35:
                def make():
                    items = [good(rng)]
                    y = rng.random()
                    if y < 0.15:
                        items.append(good(rng))                       # page repeated
                    elif y < 0.3:
                        items.insert(0, {"k": "page", "by": rng.choice((-3, -2, -1, 1, 2, 5, 256))})
                    elif y < 0.4:
                        items.append({"k": "page", "by": rng.choice((-2, -1, 1, 2, 3))})
                    elif y < 0.55:
                        items.insert(0, dict(good(rng), m=gen.mutations(rng)))
                    elif y < 0.62:
                        items = []
                    elif y < 0.7:
                        items = [{"k": "err", "code": rng.randint(1, 255)}]
                    return items
                op["req"] = [make() for _ in range(rng.randint(1, 5))]
            ops.append(op)
        return gen.zone(rng, {"cfg": c, "ops": wrap(ops)})

    @classmethod
    def check(cls, s, r):
        s.check_outcome(r)
        got = s.check_requests(r)
        if len(got) > 2 * len(s.dev.objects(r["op"])) + 4:
            raise Violation(r["i"], "read_parameters asked %d times for %d objects" % (
                len(got), len(s.dev.objects(r["op"]))))
        if r["out"].kind == "val" and r["i"] not in s.dev.fooled:
            # whatever was in doubt on the line, what was returned has to be all of it
            objs = [e for _, e in s.dev.objects(r["op"])]
            if objs:
                bad = session.objects_check(objs)(r["out"].value)
                if bad:
                    raise Violation(r["i"], "read_parameters: %s" % bad)
        # a repeated page still on the line could not be told from an answer to the next read
        cls.reconnect(s)


# ===================================================================== C05
@profile("C05")
class WriteTime(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        for _ in range(gen.several(rng, 1, 5)):
            if rng.random() < 0.25:
                ops.append(gen.base(rng, rng.choice(gen.READS[:4])))
                continue
            if rng.random() < 0.05:       # a time the protocol can not express
                ops.append({"op": "unencodable", "r": gen.sd(rng), "a": {
                    "what": rng.choice(("year", "late")), "n": rng.randrange(100)}})
                continue
            op = gen.base(rng, "write_time")
            before = [o for o in ops if o["op"] == "write_time"]
            if before and rng.random() < 0.2:     # the same time once more
                op["a"] = dict(rng.choice(before)["a"])
            x = rng.random()
            if x < 0.25:
                pass
            elif x < 0.35:
                op["req"] = [[]]                       # answer lost
            elif x < 0.6:
                op["req"] = [[{"k": "err", "code": err_code(rng)}]]
                op["apply"] = rng.random() < 0.2
            elif x < 0.7:
                op["req"] = [[dict(good(rng), m=gen.mutations(rng))]]
            elif x < 0.75:
                op["req"] = [[dict(good(rng), m=gen.mutations(rng)), good(rng)]]
            elif x < 0.87:
                op["f"] = [gen.faults_io(rng, c["tr"], ("send", "send", "recv"))]
            elif x < 0.9:
                op["kline"] = gen.line_number(rng)
                op["kexc"] = rng.choice(net.INTERRUPTS)
            else:
                op["f"] = [{"m": rng.choice(("send", "recv", "recv")), "n": rng.choice((0, 0, 1, 9)),
                            "k": rng.choice(net.INTERRUPTS), "part": rng.choice((0, 0.5, 1))}]
                if op["f"][0]["m"] == "send":
                    op["f"][0]["n"] = 0
            if rng.random() < 0.1:
                op["jump"] = gen.jumps(rng)
            ops.append(op)
        return gen.zone(rng, {"cfg": c, "ops": wrap(ops)})

    @classmethod
    def check(cls, s, r):
        s.k.drain(s.k.now + s.T)         # let everything under way arrive
        if r["name"] == "unencodable":
            Order.check(s, r)
            return
        faulty = bool(r["op"].get("f") or r["op"].get("kline"))
        ok = r["out"].kind == "val"
        if r["name"] != "write_time":
            s.check_outcome(r)
            if any(e.get("applied") for e in s.requests(r)):
                raise Violation(r["i"], "%s set the device's clock" % r["name"])
        else:
            got = s.requests(r)
            valid = [e for e in got if not e["bad"]]
            s.check_requests(r, complete=ok)
            if len(valid) > 1:
                raise Violation(r["i"], "write_time sent %d requests" % len(valid))
            if ok:
                took = [e["applied"] for e in valid if "applied" in e]
                if len(took) != 1 or not session.same(took[0], r["op"]["a"]["time"]):
                    raise Violation(r["i"], "write_time succeeded, the device applied %s" % (
                        [e.get("applied") for e in valid],))
                s.check_outcome(r)
            elif not faulty:
                s.check_outcome(r)
        if not ok or any(len(q) > 1 or any("m" in it for it in q) for q in r["op"].get("req", ())):
            # what may still come could not be told from the answer to the next write
            cls.reconnect(s)       # nothing that could pass for the next operation's answer stays


def err_code(rng):
    if rng.random() < 0.4:
        return 1 << rng.randrange(8)
    return rng.randint(1, 255)


# ===================================================================== C06
@profile("C06")
class Termination(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng)
        for _ in range(rng.randint(1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))

            def stall():
                x = rng.random()
                if x < 0.2:
                    return []
                if x < 0.4:
                    return [dict(good(rng), m=[["cut", round(rng.random(), 4), 0]])]
                if x < 0.55:
                    return [raw(gen.noise(rng, False) or b"\x02", rng.choice((0, 0.2)))
                            for _ in range(rng.randint(1, 5))]
                if x < 0.65:
                    return [raw(gen.noise(rng)) for _ in range(rng.randint(1, 4))]
                if x < 0.8:
                    return [dict(good(rng), m=[["cut", round(rng.random(), 4), 0]]),
                            {"k": rng.choice(("eof", "rst"))}]
                if x < 0.9:
                    return [{"k": rng.choice(("eof", "rst")), "d": rng.choice((0, 0.3))}]
                return [{"k": "other", "svc": gen.other_service(rng, op["op"]), "c": gen.sd(rng)}]
            n = rng.randint(0, 2) if op["op"] == "read_parameters" else 0
            op["req"] = [[good(rng)] for _ in range(n)] + [stall()]
            if rng.random() < 0.08:       # the peer has gone before the operation begins
                op["pre"] = [{"k": rng.choice(("eof", "eof", "rst"))}]
                if rng.random() < 0.5:
                    op["pre"].insert(0, raw(gen.noise(rng, rng.random() < 0.5) or b"\x02"))
            if rng.random() < 0.3:
                op["jump"] = gen.jumps(rng)
            if rng.random() < 0.1:        # the line does not take the request
                op["f"] = [{"m": "send", "n": rng.randint(0, n), "part": rng.choice((0, 0.5, 0.9)),
                            "k": "timeout" if c["tr"] == "tcp" else "swrite"}]
            ops.append(op)
        ops = wrap(ops)
        if c["tr"] == "tcp" and rng.random() < 0.2:       # the host does not answer the first attempt to connect
            ops.insert(0, {"op": "connect", "f": [{"m": "connect", "n": 0, "k": "timeout"}]})
        if rng.random() < 0.12:       # nor the next ones, or it refuses them
            ops[:0] = [{"op": "connect", "f": [gen.connect_fault(rng, c["tr"])]}
                       for _ in range(rng.choice((1, 2, 3, 6, 10)))]
        return {"cfg": c, "ops": ops}

    @classmethod
    def lifecycle(cls, s, r):
        limit = s.T * 2 + 2 * US
        if r["t1"] - r["t0"] > limit:
            raise Violation(r["i"], "%s took %.1f s, timeout %.1f s" % (
                r["name"], (r["t1"] - r["t0"]) / US, s.T / US))
        if not r["op"].get("f"):
            return super().lifecycle(s, r)
        if r["out"].kind == "val" and r["op"]["f"][0]["k"] == "timeout":
            raise Violation(r["i"], "connect to a host that does not answer returned")
        cls.unlock(s, r)

    @classmethod
    def unlock(cls, s, r):
        """What a failed connect left behind is C08's matter."""
        out = s.step(r["i"], {"op": "disconnect"})
        s.no_hang(out)

    @classmethod
    def check(cls, s, r):
        s.no_hang(r)
        link = r["link"]
        last = max([r["t0"], r["plan"].sent_at or 0]
                   + [t for t, w in link.log if t <= r["t1"]])
        for e in s.requests(r):
            last = max(last, e["t"])
        limit = s.T * (2 + r["jumps"]) + 2 * US
        if r["t1"] - last > limit:
            raise Violation(r["i"], "%s returned %.1f s after the line went silent, timeout %.1f s" % (
                r["name"], (r["t1"] - last) / US, s.T / US))
        s.check_outcome(r, [("anyexc", None)])
        if r["out"].kind != "val":
            cls.reconnect(s)


# ===================================================================== C07
@profile("C07")
class Failures(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng)
        ops = []
        if rng.random() < 0.3:
            ops.append({"op": "connect", "f": [gen.connect_fault(rng, c["tr"])]})
        ops.append({"op": "connect"})
        for _ in range(gen.several(rng, 1, 3)):
            op = gen.base(rng, rng.choice(gen.OPS))
            x = rng.random()
            if x < 0.7:
                op["f"] = [gen.faults_io(rng, c["tr"])]
            elif x < 0.77:
                op["pre"] = [{"k": rng.choice(("eof", "rst") if c["tr"] == "tcp" else ("rst",))}]
            else:
                op["req"] = [[rng.choice((dict(good(rng), m=[["cut", round(rng.random(), 4), 0]]),
                                          raw(b"\r"))),
                              {"k": rng.choice(("eof", "rst") if c["tr"] == "tcp" else ("rst",))}]]
            ops.append(op)
        if rng.random() < 0.4:
            ops.append({"op": "disconnect", "f": [gen.disconnect_fault(rng, c["tr"])]})
        else:
            ops.append({"op": "disconnect"})
        return {"cfg": c, "ops": ops}

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        connected = False
        for i, op in enumerate(scn["ops"]):
            if op["op"] == "connect" and connected or op["op"] != "connect" and not connected:
                continue
            before = dict(s.k.faults)
            r = s.step(i, op)
            s.no_hang(r)
            f = op.get("f", [None])[0]
            fired = f is not None and any(
                s.k.faults.get("%s_%s" % (f["m"], k), 0) > before.get("%s_%s" % (f["m"], k), 0)
                for k in (f["k"], "timeout"))
            out = r["out"]
            if fired:
                if out.kind == "val":
                    raise Violation(i, "%s hid that %s failed (%s)" % (op["op"], f["m"], f["k"]))
                if not out.is_comm:
                    raise Violation(i, "%s %s when %s failed (%s), not CommunicationError" % (
                        op["op"], out.text, f["m"], f["k"]))
            elif op["op"] in ("connect", "disconnect"):
                if out.kind != "val":
                    raise Violation(i, "%s %s without a fault" % (op["op"], out.text))
            else:
                s.check_outcome(r)
            if op["op"] == "connect":
                connected = out.kind == "val"
            elif op["op"] == "disconnect":
                connected = False
            elif out.kind != "val":
                cls.reconnect(s, i)


# ===================================================================== C08
@profile("C08")
class Recovery(Base):
    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, own=True)
        ops = [{"op": "connect"}]
        for _ in range(gen.several(rng, 1, 3, (15, 40))):
            for _ in range(rng.randint(1, 3)):
                ops.append(cls.broken(rng, c))
            rec = {"op": "recover"}
            f = []
            if rng.random() < 0.35:
                f.append(gen.disconnect_fault(rng, c["tr"]))
            elif rng.random() < 0.2:
                f.append({"m": "close" if c["tr"] == "serial" else rng.choice(("close", "shutdown")),
                          "n": 0, "k": rng.choice(net.INTERRUPTS)})
            if rng.random() < 0.3:
                f.append(gen.connect_fault(rng, c["tr"]))
            elif rng.random() < 0.1:
                f.append({"m": "connect", "n": 0, "k": rng.choice(net.INTERRUPTS)})
            if f:
                rec["f"] = f
            ops.append(rec)
            op = gen.base(rng, rng.choice(gen.OPS))
            op["clean"] = 1
            ops.append(op)
        ops.append({"op": "disconnect"})
        return {"cfg": c, "ops": ops}

    @classmethod
    def broken(cls, rng, c):
        x = rng.random()
        if x < 0.08:
            return {"op": "unencodable", "r": gen.sd(rng), "a": {
                "what": rng.choice(gen.UNENCODABLE),
                "n": rng.randrange(100)}}
        op = gen.base(rng, rng.choice(gen.OPS))
        if x < 0.12:
            op["kline"] = gen.line_number(rng)
            op["kexc"] = rng.choice(net.INTERRUPTS)
        elif x < 0.15:
            op["pre"] = [{"k": rng.choice(("eof", "rst"))}]
        elif x < 0.3:
            op["f"] = [gen.faults_io(rng, c["tr"])]
        elif x < 0.5:
            m = rng.choice(("send", "recv", "recv", "recv"))
            op["f"] = [{"m": m, "n": 0 if m == "send" else rng.choice((0, 1, 7, rng.randrange(60))),
                        "k": rng.choice(net.INTERRUPTS), "part": rng.choice((0, 0.5, 1))}]
        elif x < 0.6:
            op["req"] = [[]]
        elif x < 0.7:
            op["req"] = [[dict(good(rng), m=gen.mutations(rng))]]
        elif x < 0.78:
            op["req"] = [[{"k": "err", "code": rng.randint(1, 255)}]]
            if rng.random() < 0.5:
                op["req"][0].append(rng.choice((good(rng, False), raw(gen.noise(rng)), dict(
                    good(rng, False), m=[["cut", round(rng.random(), 4), 0]]))))
                op["sch"] = [0, 0]
        elif x < 0.86:
            op["req"] = [[{"k": "other", "svc": gen.other_service(rng, op["op"]), "c": gen.sd(rng)}]]
        elif x < 0.92:
            op["req"] = [[{"k": "data", "hex": blob(rng, rng.randint(2, 8)).hex()}]]
        elif x < 0.96:
            op["req"] = [[dict(good(rng), m=[["cut", round(rng.random(), 4), 0]]),
                          {"k": rng.choice(("eof", "rst"))}]]
        elif c["enc"]:
            op["req"] = [[dict(good(rng), ct=gen.mutations(rng))]]
        else:
            op["req"] = [[dict(good(rng), enc=True), raw(gen.noise(rng, False))]]
        return op

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        fresh = False
        for i, op in enumerate(scn["ops"]):
            if op["op"] == "recover":
                cls.recovery(s, i, op)
                fresh = True
                continue
            if s.link() is None and op["op"] not in ("connect", "disconnect"):
                continue
            r = s.step(i, op)
            s.no_hang(r)
            if op["op"] == "connect":
                cls.lifecycle(s, r)
            elif op.get("clean") and fresh:
                s.want_value(r)
                s.check_requests(r)
                fresh = False
            elif op["op"] != "disconnect":
                fresh = False

    @classmethod
    def recovery(cls, s, i, op):
        """disconnect, then connect until it works; faults hit the first attempt of each."""
        fs = op.get("f", [])
        for attempt in (0, 1):
            r = s.step(i, {"op": "disconnect",
                           "f": [f for f in fs if f["m"] in ("shutdown", "close")] if not attempt else []})
            s.no_hang(r)
            if r["out"].kind == "val" or r["out"].is_comm:
                break
            if not isinstance(r["out"].exc, (KeyboardInterrupt, MemoryError, net.Alarm)):
                raise Violation(i, "disconnect after a failure %s" % r["out"].text)
        else:
            raise Violation(i, "disconnect after an interrupted disconnect %s" % r["out"].text)
        for attempt in (0, 1):
            cf = [f for f in fs if f["m"] == "connect"] if not attempt else []
            r = s.step(i, {"op": "connect", "f": cf})
            s.no_hang(r)
            if r["out"].kind == "val":
                if s.link() is None:
                    raise Violation(i, "connect after disconnect returned but there is no connection")
                return
            if not cf:
                break
        raise Violation(i, "connect after disconnect %s" % r["out"].text)


# ===================================================================== C09
@profile("C09")
class DeviceErrors(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        for _ in range(gen.several(rng, 1, 4)):
            op = gen.base(rng, rng.choice(gen.OPS))
            e = {"k": "err", "code": err_code(rng)}
            if rng.random() < 0.3:
                e["enc"] = False
            items = [e]
            if rng.random() < 0.2:
                items.insert(0, raw(gen.noise(rng)))
            if rng.random() < 0.1:
                items.insert(0, dict(good(rng), m=[["flip", round(rng.random(), 4), 1]]))
            n = rng.randint(0, 2) if op["op"] == "read_parameters" else 0
            op["req"] = [[good(rng)] for _ in range(n)] + [items]
            op["apply"] = False
            ops.append(op)
            if rng.random() < 0.8:
                ops.append(gen.base(rng, rng.choice(gen.OPS)))
        return {"cfg": c, "ops": wrap(ops)}

    @classmethod
    def check(cls, s, r):
        allow = s.check_outcome(r)
        if any("comm" == k for k, _, _ in allow.items) and r["out"].kind != "val":
            cls.reconnect(s)


# ===================================================================== C10
@profile("C10")
class Order(Base):
    @classmethod
    def gen(cls, rng):
        ops = []
        c = gen.cfg(rng, own=True)
        later = []                      # built from the last operation to the first
        for _ in range(gen.several(rng, 1, 4, (20, 60))):
            if rng.random() < 0.25:
                ops.append({"op": "unencodable", "r": gen.sd(rng), "a": {
                    "what": rng.choice(gen.UNENCODABLE),
                    "n": rng.randrange(100)}})
                continue
            op = gen.base(rng, rng.choice(gen.OPS if rng.random() < 0.15 else
                                          [o for o in gen.OPS if o != "read_parameters"]))

            def stray(but=()):
                it = {"k": "other", "svc": gen.other_service(rng, op["op"], but), "c": gen.sd(rng)}
                if rng.random() < 0.3:
                    it = {"k": "err", "svc": it["svc"], "code": err_code(rng)}
                elif rng.random() < 0.1:
                    it = {"k": "data", "svc": it["svc"], "hex": blob(rng, rng.randint(2, 12)).hex()}
                return it
            items = [stray() for _ in range(rng.choice((0, 1, 1, 2)))] + [good(rng)]
            # what is left on the line must not pass for an answer to a later request
            if rng.random() < 0.3 and len(set(later) | {op["op"]}) < len(gen.OPS):
                rest = [stray(later)]
                items += rest
            later.append(op["op"])
            op["req"] = [items]
            if rng.random() < 0.5:
                op["also"] = rng.choice(gen.OPS)      # asked for while the answer is outstanding
            x = rng.random()
            if x < 0.06 and op["op"] != "read_parameters":
                # two requests in one go: the second has to wait
                op["req"] = [[good(rng)]]
                op["pair"] = gen.base(rng, rng.choice(gen.OPS))
            elif x < 0.16 and op["op"] != "read_parameters":
                # the answer comes when the client has given up waiting
                op["req"] = [[dict(good(rng), d=rng.choice((1.2, 2, 5)))]]
                op["late"] = rng.choice((0, 0.5, 4, 50))
                op["sch"] = [op["sch"][0], rng.choice((0, 1))]
            ops.append(op)
        return {"cfg": c, "ops": wrap(ops[::-1])}

    @classmethod
    def check(cls, s, r):
        name = r["name"]
        if name == "unencodable":
            if r["out"].kind == "val":
                raise Violation(r["i"], "a request that can not be encoded %s" % r["out"].text)
            if r["link"] is not None and len(r["link"].sent) != r["sent_from"]:
                raise Violation(r["i"], "a request that can not be encoded put bytes on the line")
            return
        if r["op"].get("pair"):
            s.no_hang(r)
            if r["out"].kind == "val":
                raise Violation(r["i"], "two requests were sent in a row")
            s.k.drain(max(s.k.now, r["link"].in_free_at))
            s.check_requests(r)
        else:
            s.check_outcome(r)
        if r["out"].kind == "val":
            return
        if name == "read_parameters":      # the rest of it can not be asked for separately
            cls.reconnect(s)
            return
        # An answer to something else was reported.  Nothing can be sent until the outstanding
        # answer has been collected, and that can still be done.
        op = r["op"]
        plan = r["plan"]
        pos = getattr(s.link(), "model_pos", None)
        if pos is None:
            pos = r["read_pos"]
        patience = 6
        if r["out"].is_comm and "late" in op:
            # Nothing came in time.  The answer is outstanding still.
            s.step(r["i"], {"op": "wait", "d": op["late"]})
            patience = 14
        for attempt in range(patience):
            if "also" in op:
                link = s.link()
                n = len(link.sent)
                o2 = gen.base(random.Random("%s/also" % op.get("c", 0)), op["also"])
                r2 = s.step(r["i"], o2)
                s.no_hang(r2)
                if len(link.sent) != n:
                    raise Violation(r["i"], "%s was sent while %s is outstanding" % (
                        o2["op"], name))
                if r2["out"].kind == "val":
                    raise Violation(r["i"], "%s %s while %s is outstanding" % (
                        o2["op"], r2["out"].text, name))
            r3 = s.step(r["i"], {"op": "next_event", "s": op.get("s", 0)})
            s.no_hang(r3)
            link = s.link()
            lines = session.lines_of(link, pos, r3["t0"], s.T)
            lines = [(l, p, False) for l, p, _ in lines]
            allow = predict_event(name, lines, s.cipher)
            ok, why = allow.match(r3["out"])
            if not ok:
                raise Violation(r["i"], "next_event for the outstanding %s %s; allowed: %s (%s)" % (
                    name, r3["out"].text, allow, why))
            if r3["out"].kind == "val":
                link.model_pos = why if isinstance(why, int) else link.model_pos
                return
            if r3["out"].is_comm:
                if patience > 6:
                    continue
                cls.reconnect(s)
                return
            if isinstance(why, int):
                pos = link.model_pos = why
        raise Violation(r["i"], "the outstanding answer to %s is never returned" % name)


def predict_event(name, lines, cipher):
    """Like session.predict for one response, but what comes back is the response itself."""
    allow = session.Allow()
    svc = proto.SVC[name]
    for line, pos, old in lines:
        certain, ms = proto.classify(line, cipher)
        decisive = certain
        for m in ms:
            if m[0] == "rsp" and m[1] == svc:
                try:
                    f = proto.parse_response(svc, m[2])
                except proto.Bad:
                    allow.add("any", None, pos)
                    continue
                allow.add("val", pdu_check(name, f), pos)
            elif m[0] == "err" and m[1] == svc:
                allow.add("exc", m[2], pos)
            else:
                allow.add("anyexc", None, pos)
                decisive = False
        if decisive and ms:
            return allow
    allow.add("comm")
    return allow


PDU_CLASS = {"read_time": "ReadTimeResponse",
             "read_instantaneous_values": "ReadInstantaneousValuesResponse",
             "read_parameters": "ReadDeviceParametersResponse",
             "read_archive": "ReadArchiveResponse",
             "read_archive_by_time": "ReadArchiveByTimeResponse",
             "write_time": "WriteTimeResponse"}


def pdu_check(name, fields):
    def check(got):
        if type(got).__name__ != PDU_CLASS[name]:
            return "answer is a %s" % type(got).__name__
        f = dict(fields)
        if name in ("read_time",):
            f = {**f}
        return generic_check(f)(got)
    return check


def generic_check(fields):
    def check(got):
        for k, want in fields.items():
            if isinstance(want, list):
                want = session.dt(want)
            if not hasattr(got, k):
                return "%s has no %s" % (type(got).__name__, k)
            g = getattr(got, k)
            if isinstance(want, bytes) and isinstance(g, (bytes, bytearray, memoryview)):
                g = bytes(g)
            if g != want:
                return "%s.%s is %s, the device said %s" % (
                    type(got).__name__, k, session.short(g), session.short(want))
            bad = session.name_check(k, g, want)
            if bad:
                return bad
        return None
    return check


from . import props2, props3, props4, props5  # noqa: E402,F401  (registers the other profiles)
