"""Profile C22: clients that are used for a long time."""
import atexit
import collections
import functools
import gc
import random
import sys
import threading
import types
import warnings
import weakref

from . import gen, net, params, session
from .props import Base, err_code, good, profile, raw
from .session import Violation

PLAIN = (str, bytes, bytearray)
WAYS = (dict, list, tuple, set, frozenset, types.MethodType, types.CellType, types.MappingProxyType,
        functools._lru_cache_wrapper, functools.partial, collections.deque, staticmethod, classmethod, property)
SIZED = (dict, list, tuple, set, frozenset, collections.deque)
PHASES = 4
BOUND, STEP = 1080, 120


def ours(t):
    return str(getattr(t, "__module__", "")).partition(".")[0] == "elgas"


def kept(client):
    """How much the client and the library keep: objects, and the length of what is in them."""
    todo = [client] + [m.__dict__ for n, m in sorted(sys.modules.items())
                       if n.partition(".")[0] == "elgas"]
    seen = set()
    # what Python keeps for it
    total = (atexit._ncallbacks() + len(weakref.finalize._registry) + threading.active_count()
             + len(warnings.filters))
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (int, float, type(None), types.ModuleType, types.CodeType)):
            continue
        seen.add(id(o))
        total += 1
        if isinstance(o, PLAIN):
            total += len(o)
            continue
        if isinstance(o, SIZED):
            total += len(o)
        if isinstance(o, WAYS) or ours(o if isinstance(o, (type, types.FunctionType)) else type(o)):
            todo += [x for x in gc.get_referents(o) if not isinstance(x, types.FrameType)]
    return total


@profile("C22")
class Lasting(Base):
    """The same few things happen again and again; what is kept must not grow with them."""

    CPU = 120     # seconds: a run that has to be confirmed is long
    KINDS = ("good", "good", "good", "error", "noise", "damaged", "silence", "io", "kbd", "other",
             "unencodable", "refused", "cycle", "cut")

    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, own=True)
        if c["T"] > 10:
            c["T"] = 10
        ops = [{"op": "good", "name": rng.choice(gen.OPS)}]
        for _ in range(rng.randint(0, 3)):
            ops.append({"op": rng.choice(cls.KINDS), "name": rng.choice(gen.OPS)})
        rng.shuffle(ops)
        scn = {"cfg": c, "ops": ops, "n": rng.choice((4, 6, 10)), "r": gen.sd(rng)}
        if rng.random() < 0.25:
            scn["anew"] = 1              # clients come and go
        if rng.random() < 0.15:
            scn["loud"] = 1
        return scn

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        cls.i, cls.up = 0, False
        s.sizes = []
        for phase in range(PHASES + 1):
            cls.phase(s, scn, phase, scn["n"])
        n = scn["n"]
        sizes = s.sizes[1:]                   # at first things may be made for good
        if min(b - a for a, b in zip(sizes, sizes[1:])) < n:
            return
        # something with a bound of its own, a cache, say, is allowed to fill up
        for more in range(BOUND // STEP):
            cls.phase(s, scn, PHASES + 1 + more, STEP)
            if more and s.sizes[-1] - s.sizes[-2] < n:
                return
        raise Violation(cls.i, "what the client keeps grows: %s after each %d times %s" % (
            sizes, n, "+".join(t["op"] for t in scn["ops"])))

    @classmethod
    def phase(cls, s, scn, phase, cycles):
        i, up = cls.i, cls.up
        for cycle in range(cycles):
            if scn.get("anew") and not up:
                s.client = s.make_client(s.cfg)
            for n, t in enumerate(scn["ops"]):
                rng = random.Random("%s/%d/%d/%d" % (scn["r"], phase, cycle, n))
                if not up:
                    i, up = cls.connect(s, i, t, rng)
                if not up:
                    continue
                i, up = cls.one(s, i, t, rng)
            if scn.get("anew") and up:
                s.no_hang(s.step(i, {"op": "disconnect"}))
                i, up = i + 1, False
            if cycle % 16 == 15:
                cls.forget(s)
        # the same last operation every time: what a client keeps of it is the same
        rng = random.Random("%s/last" % scn["r"])
        if not up:
            i, up = cls.connect(s, i, {"op": "good"}, rng)
        i, up = cls.one(s, i, {"op": "good", "name": "read_instantaneous_values"}, rng)
        if scn.get("anew"):
            s.no_hang(s.step(i, {"op": "disconnect"}))
            i, up = i + 1, False
        if s.w.open_handles > 1:
            raise Violation(i, "%d handles are open" % s.w.open_handles)
        if len(s.sizes) > PHASES:
            gc.collect()
        s.sizes.append(kept(s.client))
        cls.i, cls.up = i, up
        cls.forget(s)

    @staticmethod
    def forget(s):
        """The simulation's own records."""
        s.forgotten = getattr(s, "forgotten", 0) + len(s.results)
        s.results.clear()
        s.dev.journal.clear()
        if s.link() is not None:
            s.link().sent.clear()

    @classmethod
    def connect(cls, s, i, t, rng):
        if t["op"] == "refused":
            r = s.step(i, {"op": "connect", "f": [gen.connect_fault(rng, s.cfg["tr"])]})
            s.no_hang(r)
            i += 1
            if r["out"].kind == "val":
                return i, True
        r = s.step(i, {"op": "connect"})
        s.no_hang(r)
        if r["out"].kind != "val":
            raise Violation(i, "connect %s" % r["out"].text)
        return i + 1, True

    @classmethod
    def cut(cls, s, i, t, rng):
        op = {"op": "disconnect"}
        if t["op"] == "cut" and rng.random() < 0.7:
            op["f"] = [gen.disconnect_fault(rng, s.cfg["tr"])]
        s.no_hang(s.step(i, op))

    @classmethod
    def one(cls, s, i, t, rng):
        """-> next operation's number, whether the connection is still good"""
        kind = t["op"]
        if kind in ("refused", "cycle", "cut"):
            cls.cut(s, i, t, rng)
            return i + 1, False
        if kind == "unencodable":
            r = s.step(i, {"op": "unencodable", "r": gen.sd(rng), "a": {
                "what": rng.choice(gen.UNENCODABLE), "n": rng.randrange(100)}})
            s.no_hang(r)
            return i + 1, True
        op = gen.base(rng, t["name"])
        op.pop("jump", None)
        if kind == "error":
            op["req"] = [[{"k": "err", "code": err_code(rng)}]]
        elif kind == "noise":
            op["req"] = [[raw(gen.noise(rng)), good(rng)]]
        elif kind == "damaged":
            op["req"] = [[dict(good(rng), m=gen.mutations(rng))]]
        elif kind == "silence":
            op["req"] = [[]]
        elif kind == "other":
            op["req"] = [[{"k": "other", "svc": gen.other_service(rng, op["op"]), "c": gen.sd(rng)}]]
        elif kind in ("io", "kbd"):
            op["f"] = [gen.faults_io(rng, s.cfg["tr"])]
            if kind == "kbd":
                op["f"][0]["k"] = rng.choice(net.INTERRUPTS)
        r = s.step(i, op)
        s.no_hang(r)
        if kind in ("good", "noise"):
            s.want_value(r)
            s.check_requests(r)
            return i + 1, True
        if kind == "error" and r["out"].kind == "exc" and not r["out"].is_comm:
            return i + 1, True
        s.no_hang(s.step(i + 1, {"op": "disconnect"}))
        return i + 2, False


@profile("C23")
class Spoilt(Base):
    """A meter whose stored configuration is not well-formed, though its frames are."""

    HOW = ("cut", "cut", "torn", "torn", "long", "beyond", "type", "length", "rest")

    LEAST = {"read_instantaneous_values": 25, "read_time": 6, "read_archive": 5,
             "read_archive_by_time": 5, "read_parameters": 5}

    @classmethod
    def gen(cls, rng):
        c = gen.cfg(rng, own=True)
        ops = []
        for _ in range(gen.several(rng, 1, 3)):
            if rng.random() < 0.3:
                op = gen.base(rng, rng.choice(gen.READS))
                least = cls.LEAST[op["op"]]
                op["req"] = [[dict(good(rng), to=rng.choice((0, 2, least - 1, rng.randrange(2, least))))]]
                if rng.random() < 0.2:
                    op["req"][0].insert(0, raw(gen.noise(rng)))
                ops.append(op)
                if rng.random() < 0.7:
                    ops.append(gen.base(rng, rng.choice(gen.OPS)))
                continue
            op = gen.base(rng, "read_parameters")
            op["count"] = rng.choice((1, 1, 2, 3, 8, 20))
            if rng.random() < 0.4:
                op["types"] = [rng.choice(params.TYPE_LIST)] * rng.randint(1, 4)
            how = rng.choice(cls.HOW)
            n = rng.choice((0, 1, 2, rng.randrange(1000), rng.randrange(1000)))
            junk = bytes(rng.choice((0, 255, 13, rng.randrange(256))) for _ in range(rng.choice((1, 2, 2, 5, 30))))
            if how == "type":
                n = rng.choice([x for x in range(256) if x not in params.TYPES and x not in params.UNREADABLE])
            elif how == "rest":
                junk = rng.choice((junk[:2], bytes(rng.randint(1, 20))))
            elif how == "beyond":
                n = rng.choice((0, 1, 10, n, 40000, (1 << rng.randint(8, 15)) - 1, (1 << rng.randint(8, 15)) - 1))
            op["spoil"] = [how, n, junk.hex()]
            x = rng.random()
            if x < 0.1:
                op["req"] = [[raw(gen.noise(rng)), good(rng)]]
            elif x < 0.2:
                op["req"] = [[good(rng)] for _ in range(rng.randint(0, 2))] + [
                    [dict(good(rng), m=gen.mutations(rng))]]
            ops.append(op)
            if rng.random() < 0.7:
                ops.append(gen.base(rng, rng.choice(gen.OPS)))
        return gen.zone(rng, {"cfg": c, "ops": [{"op": "connect"}] + ops + [{"op": "disconnect"}]})

    @classmethod
    def check(cls, s, r):
        s.no_hang(r)
        items = r["op"].get("req", [[]])[0]
        if any("to" in it for it in items):
            if r["out"].kind == "val":
                raise Violation(r["i"], "an answer of only %d bytes is accepted: %s %s" % (
                    items[-1]["to"], r["name"], r["out"].text))
            s.check_requests(r, complete=False)
            cls.reconnect(s)
            return
        if not r["op"].get("spoil"):
            s.want_value(r)
            s.check_requests(r)
            return
        out = r["out"]
        objs = s.dev.objects(r["op"])
        if out.kind == "val":
            if s.dev.may == "error":
                raise Violation(r["i"], "a configuration with a bad object (%s) is accepted: read_parameters %s"
                                % (r["op"]["spoil"][0], out.text))
            bad = session.objects_check([e for _, e in objs])(out.value)
            if bad:
                raise Violation(r["i"], "read_parameters: %s" % bad)
        s.check_requests(r, complete=False)
        if r["op"].get("req"):
            cls.reconnect(s)
