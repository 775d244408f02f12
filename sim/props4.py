"""Profiles C18 and C19: configurations kept as JSON text, and the settings of connections."""
import dataclasses
import enum
import importlib
import json
import os
import random
import sys

from . import gen, params
from .kernel import CURRENT, SimAbort, SimHang
from .props import Base, good, profile
from .props2 import Isolation
from .session import E, Violation, short

KINDS = params.TYPE_LIST + sorted(params.UNREADABLE)
WORDS = ("", " ", "null", "true", "0", "NaN", '"', "\\", "\\u0041", "{}", "[1]", "\u20ac", "a\nb",
         "\ud7ff\U0001f525", "\x00", "\x7f\x9f\u2028", "'", "  padded  ", "1e5", "None", "x" * 300)
NUMBERS = (0.0, -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, -1e-7, 1e16, 123456789.123456789)


class Tools:
    """The conversion as one process knows it: object classes and schemas by type number."""

    def __init__(self):
        self.factory = importlib.import_module("elgas.parameters.factory")
        self.types = importlib.import_module("elgas.parameters.enumerations").ParameterObjectType
        self.made = {61: getattr(self.factory, "DeviceError", None),
                     62: getattr(self.factory, "SumOfAlarms", None)}
        self.envelope = importlib.import_module("elgas.integration")
        self.shared = {}

    def schema(self, kind, shared):
        if isinstance(kind, str):
            cls = getattr(self.envelope, kind)
        else:
            cls = self.factory.ParameterSchemaFactory.by_parameter_id(self.types(kind))
        if not shared:
            return cls()
        if kind not in self.shared:
            self.shared[kind] = cls()
        return self.shared[kind]

    @classmethod
    def next_process(cls):
        """What a process started later has: nothing of this one's state."""
        def mine():
            return {n: m for n, m in sys.modules.items() if n == "elgas" or n.startswith("elgas.")}
        old = mine()
        try:
            for n in old:
                del sys.modules[n]
            return cls()
        finally:
            for n in mine():
                del sys.modules[n]
            sys.modules.update(old)


def fields_of(o):
    """The names of an object's fields, or None for plain data; o: object or class"""
    t = o if isinstance(o, type) else type(o)
    if hasattr(t, "__attrs_attrs__"):
        return [a.name for a in t.__attrs_attrs__]
    if hasattr(t, "__dataclass_fields__"):
        return [f.name for f in dataclasses.fields(t)]
    if t.__module__.startswith("elgas.") and hasattr(o, "__dict__") and o is not t:
        return sorted(vars(o))
    return None


def plain(o):
    """An object as comparable data, whatever process its class is from."""
    names = fields_of(o)
    if names is not None and not isinstance(o, enum.Enum):
        return (type(o).__name__, {n: plain(getattr(o, n)) for n in names})
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


def differs(want, got):
    """want and got: plain() of objects -> None or what differs"""
    if not isinstance(got, tuple) or got[0] != want[0]:
        return "%s instead of %s" % (short(got), want[0])
    if list(want[1]) != list(got[1]) and set(want[1]) != set(got[1]):
        return "fields %s" % sorted(set(want[1]) ^ set(got[1]))
    for name, w in want[1].items():
        g = got[1][name]
        if isinstance(w, tuple):
            bad = differs(w, g)
            if bad:
                return "%s: %s" % (name, bad)
        elif not (w == g) or (w is None) != (g is None) or isinstance(w, str) != isinstance(g, str):
            return "%s.%s is %s, was %s" % (want[0], name, short(g), short(w))
    return None


@profile("C18")
class Archive(Isolation):
    @classmethod
    def gen(cls, rng):
        clients = []
        kinds = [rng.choice(params.TYPE_LIST) for _ in range(rng.choice((1, 1, 1, 2, 4)))]
        preempt = rng.random() < 0.5
        one_kind = rng.random() < (0.7 if preempt else 0.5)
        tight = one_kind and preempt and rng.random() < 0.6    # all use one schema a lot
        for _ in range(rng.choice((1, 2, 2, 3))):
            c = gen.cfg(rng)
            ops = []
            for _ in range(rng.choice((1, 1, 2))):
                op = gen.base(rng, "read_parameters")
                op["sch"] = [rng.choice((0, 1)), rng.choice((0, 1, 2))]
                op["count"] = rng.randint(1, 6)
                if one_kind:
                    op["types"] = [rng.choice(kinds) for _ in range(rng.randint(1, 6))]
                x = rng.random()
                if x < 0.1:
                    op["f"] = [gen.faults_io(rng, c["tr"])]
                elif x < 0.15:
                    op["req"] = [[good(rng, False)], []]
                ops.append(op)
                if tight:
                    op["types"] = [kinds[0]] * rng.randint(2, 6)
                    op.pop("f", None), op.pop("req", None)
                    ops.append({"op": "meet"})
                    ops += [{"op": "save", "r": gen.sd(rng), "shared": 1, "how": "text"}
                            for _ in range(4)]
                    ops += [{"op": "load", "r": gen.sd(rng), "shared": 1, "how": "text"}
                            for _ in range(2)]
                    continue
                if rng.random() < 0.3:
                    ops.append({"op": "make", "r": gen.sd(rng), "kind": rng.choice((61, 62))})
                for _ in range(rng.randint(1, 4)):
                    ops.append({"op": rng.choice(("save", "save", "load", "load", "edit")),
                                "r": gen.sd(rng), "shared": int(rng.random() < 0.4),
                                "how": rng.choice(("text", "text", "data", "many", "whole"))})
                if rng.random() < 0.1:
                    ops.append({"op": "torn", "r": gen.sd(rng)})
            clients.append({"cfg": c, "ops": ops})
        scn = {"cfg": clients[0]["cfg"], "clients": clients, "sched": gen.sd(rng),
               "stick": rng.choice((0, 0.5, 0.9)), "ops": []}
        if preempt:                  # tasks also lose the processor between any two lines
            scn["gap"] = rng.choice((2, 5, 15, 50, 200))
            if tight or rng.random() < 0.3:
                scn["where"] = "parameters"      # only where the conversion is
                scn["gap"] = rng.choice((1, 2, 4))
            elif rng.random() < 0.5:
                scn["rare"] = 1
            scn["hold"] = rng.choice((0, 0, 50, 500))
            scn["stick"] = 0
        if rng.random() < 0.15:
            scn["restart"] = gen.sd(rng)
        return scn

    @classmethod
    def run(cls, scn, box, trace=False):
        cls.store = []               # what is kept: dicts with types, how, text, want, orig
        cls.tools = Tools()
        super().run(scn, box, trace)
        s = box["s"]
        for n, (i, o, want) in enumerate(s.loaded):
            bad = differs(want, plain(o))
            if bad:
                raise Violation(i, "a loaded object was right, and changed afterwards: %s" % bad)
        if scn.get("restart"):
            s.k.fault("restart")
            later = Tools.next_process()
            rng = random.Random("%s/later" % scn["restart"])
            for e in rng.sample(cls.store, min(40, len(cls.store))):
                cls.back(s, None, later, e, rng.random() < 0.5, 0)

    @classmethod
    def root(cls, scn):
        return super().root(scn) + (scn["where"] + os.sep if "where" in scn else "")

    @classmethod
    def open(cls, scn, box, trace):
        base = super().open(scn, box, trace)
        base.loaded, base.met = [], {}
        return base

    # ------------------------------------------------------------------ the user's side
    @classmethod
    def mark(cls, s, name, n=1):
        base = s.parent or s
        base.counts[name] = base.counts.get(name, 0) + n

    @classmethod
    def call(cls, i, what, fn):
        try:
            return fn()
        except (SimAbort, SimHang, Violation):
            raise
        except BaseException as e:
            raise Violation(i, "%s raised %s: %s" % (what, type(e).__name__, short(str(e))))

    @classmethod
    def pause(cls):
        if CURRENT[0] is not None:
            CURRENT[0].pause(None, None)

    @classmethod
    def dump(cls, i, tools, kinds, objs, how, shared):
        """-> text"""
        def go():
            if how == "whole":
                return cls.wrap(tools, kinds, objs, shared)
            schema = tools.schema(kinds[0], shared)
            if how == "many":
                return schema.dumps(objs, many=True)
            if how == "data":
                return json.dumps(schema.dump(objs[0]))
            return schema.dumps(objs[0])
        return cls.call(i, "converting %s to JSON" % type(objs[0]).__name__, go)

    @classmethod
    def wrap(cls, tools, kinds, objs, shared):
        """The objects as one configuration, as elgas.integration has it."""
        env = tools.envelope
        all_objects = []
        for n, (kind, o) in enumerate(zip(kinds, objs)):
            e = env.UtilitarianConfigurationObject(
                parameter_type=int(o.object_type), data=tools.schema(kind, shared).dump(o))
            if n % 3:
                e.series_name = "series %d" % n
            if shared:
                e = tools.schema("UtilitarianConfigurationObjectSchema", shared).dump(e)
            all_objects.append(e)
            cls.pause()
        return tools.schema("UtilitarianConfigurationSchema", shared).dumps(
            env.UtilitarianConfiguration(objects=all_objects))

    @classmethod
    def unwrap(cls, i, tools, text, shared):
        def get(x, name):
            return x[name] if isinstance(x, dict) else getattr(x, name)
        out = []
        for n, e in enumerate(get(tools.schema("UtilitarianConfigurationSchema", shared).loads(text),
                                  "objects")):
            name = get(e, "series_name")
            if name != ("series %d" % n if n % 3 else None):
                raise Violation(i, "object %d comes back with series name %r" % (n, name))
            out.append(tools.schema(get(e, "parameter_type"), shared).load(get(e, "data")))
            cls.pause()
        return out

    @classmethod
    def load(cls, i, tools, kinds, text, how, shared):
        """-> objects"""
        def go():
            if how == "whole":
                return cls.unwrap(i, tools, text, shared)
            schema = tools.schema(kinds[0], shared)
            if how == "many":
                return list(schema.loads(text, many=True))
            if how == "data":
                return [schema.load(json.loads(text))]
            return [schema.loads(text)]
        return cls.call(i, "loading objects of type %s from JSON" % kinds, go)

    @classmethod
    def back(cls, s, i, tools, e, shared, again):
        """Load what was kept, and compare; again: convert and load the result once more."""
        got = cls.load(i, tools, e["types"], e["text"], e["how"], shared)
        cls.mark(s, "objects loaded", len(got))
        if len(got) != len(e["want"]):
            raise Violation(i, "%d objects loaded, %d converted" % (len(got), len(e["want"])))
        for o, want, orig in zip(got, e["want"], e["orig"]):
            bad = differs(want, plain(o))
            if not bad and tools is cls.tools and not (o == orig[0]) and plain(orig[0]) == want:
                bad = "%s: not equal" % want[0]
            if bad:
                raise Violation(i, "loaded from JSON: %s" % bad)
        if again:
            cls.pause()
            text = cls.dump(i, tools, e["types"], got, e["how"], shared)
            cls.back(s, i, tools, dict(e, text=text), shared, again - 1)
        return got

    @classmethod
    def edit(cls, o, rng):
        """The user changes some fields."""
        fields = fields_of(o)
        for name in rng.sample(fields, min(len(fields), rng.randint(1, 3))):
            v = getattr(o, name)
            if isinstance(plain(v), tuple):
                cls.edit(v, rng)
                continue
            if v is None:
                v = "" if name.startswith(("text", "owner")) else 0
            if isinstance(v, bool):
                v = not v
            elif isinstance(v, int):
                v = rng.choice((0, 1, 255, 65535, rng.randrange(2 ** 32)))
            elif isinstance(v, float):
                v = rng.choice(NUMBERS + (rng.uniform(-1e6, 1e6),))
            elif isinstance(v, str):
                v = rng.choice(WORDS)
            elif isinstance(v, list):
                v = [rng.choice(WORDS) if rng.random() < 0.3 else x for x in v] if rng.random() < 0.7 else v[1:]
            else:
                continue
            try:
                setattr(o, name, v)
            except AttributeError:       # objects that cannot be changed
                return

    @classmethod
    def user(cls, s, i, op):
        rng = random.Random("%s/user" % op["r"])
        name, tools = op["op"], cls.tools
        cls.pause()
        if name == "make":
            exp = params.build(op["kind"], rng)[1]["f"]
            make = tools.made[op["kind"]]
            names = fields_of(make) if make is not None else None
            if names:                # no read returns these: the user makes them
                exp = {n: exp.get(n, rng.randrange(65536)) for n in names}
                s.objects.append((op["kind"], make(**exp)))
        elif name == "edit":
            for kind, o in rng.sample(s.objects, min(2, len(s.objects))):
                cls.edit(o, rng)
        elif name == "save":
            held = rng.sample(s.objects, min(rng.randint(1, 6), len(s.objects)))
            groups = [[x] for x in held]
            if op["how"] == "many":
                groups = [[x for x in held if x[0] == k] for k in sorted({x[0] for x in held})]
            if op["how"] == "whole":
                groups = [held] if held else []
            for g in groups:
                objs = [o for _, o in g]
                kinds = [k for k, _ in g]
                want = [plain(o) for o in objs]
                text = cls.dump(i, tools, kinds, objs, op["how"], op["shared"])
                for o, w in zip(objs, want):
                    if plain(o) != w:
                        raise Violation(i, "conversion to JSON changed the object")
                cls.store.append({"types": kinds, "how": op["how"], "text": text, "want": want,
                                  "orig": [(o,) for o in objs]})
                cls.mark(s, "objects converted", len(objs))
                cls.pause()
        elif name == "load" and cls.store:
            for _ in range(rng.randint(1, 6)):
                e = cls.store[rng.randrange(len(cls.store))]
                got = cls.back(s, i, tools, e, op["shared"], rng.choice((0, 0, 1, 2)))
                for kind, o, want in zip(e["types"], got, e["want"]):
                    if rng.random() < 0.2:       # the copy is the user's own
                        cls.edit(o, rng)
                        want = plain(o)
                    if rng.random() < 0.3:
                        s.objects.append((kind, o))
                    else:
                        s.parent.loaded.append((i, o, want))
                cls.pause()
        elif name == "torn" and cls.store:
            e = cls.store[rng.randrange(len(cls.store))]
            s.k.fault("torn_write")
            cut = e["text"][:rng.randrange(len(e["text"]))]
            try:
                kind = "UtilitarianConfigurationSchema" if e["how"] == "whole" else e["types"][0]
                got = tools.schema(kind, 0).loads(cut, many=e["how"] == "many")
            except (SimAbort, SimHang):
                raise
            except Exception:
                return
            raise Violation(i, "half of a JSON text loaded as %s" % short(got))

    @classmethod
    def meet(cls, s):
        """Wait until every task is here, or at its end."""
        sched, met = CURRENT[0], s.parent.met
        met[s.number] = met.get(s.number, 0) + 1
        mine = met[s.number]
        sched.pause(lambda: all(t["done"] or met.get(n + 1, 0) >= mine
                                for n, t in enumerate(sched.tasks)), None)

    @classmethod
    def task(cls, s, ops):
        s.objects = []
        i = 0
        up = False
        for op in ops + [{"op": "disconnect"}]:
            if op["op"] == "meet":
                cls.meet(s)
                continue
            if op["op"] in ("make", "save", "load", "edit", "torn"):
                cls.user(s, i, op)
                i += 1
                continue
            if op["op"] == "disconnect" and not up:
                continue
            if op["op"] != "disconnect" and not up:
                if s.step(i, {"op": "connect"})["out"].kind != "val":
                    return                       # other checks' business
                i += 1
                up = True
            r = s.step(i, op)
            i += 1
            if op["op"] == "disconnect":
                return
            if r["out"].kind == "val":
                exp = s.dev.objects(op)
                got = list(r["out"].value)
                for n, o in enumerate(got):
                    if n >= len(exp) or params.same(exp[n][1], o):
                        break                    # not what the meter holds: other checks' business
                    s.objects.append((exp[n][1]["f"]["object_type"], o))
            else:
                s.step(i, {"op": "disconnect"})
                i += 1
                up = False


# ===================================================================== C19
ADDR = ((0, 65535), (0, 255), (0, 65535), (0, 255))      # as in cfg["addr"]


def at_edge(rng, low, high):
    return rng.choice((low, low + 1, high - 1, high, rng.randint(low, high)))


def outside(rng, low, high):
    return rng.choice((low - 1, low - 2, high + 1, high + 1, high + 2, -high, low - 256, high + 256,
                       low - 65536, high + 65536, low - 2 ** 32, high + 2 ** 32,
                       rng.randint(high + 1, 3 * high + 1), -rng.randint(low + 1, 3 * high)))


@profile("C19")
class Settings(Base):
    """Settings at and beyond the edges of the protocol's ranges, in one world: what does not fit
    is refused before anything happens, what fits is used as given."""

    @classmethod
    def gen(cls, rng):
        base = gen.cfg(rng)
        ops = []
        for _ in range(rng.randint(1, 6)):
            c = dict(base, pw=gen.password(rng), pwid=at_edge(rng, 801, 849),
                     enc=gen.key(rng) if rng.random() < 0.3 else None)
            c.pop("own", None)
            if rng.random() < 0.8:
                c["addr"] = [at_edge(rng, *r) for r in ADDR]
            bad = rng.random() < 0.55
            if bad:
                for _ in range(rng.choice((1, 1, 1, 2))):
                    x = rng.random()
                    if x < 0.2:
                        c["pw"] = [rng.choice(gen.ALNUM)
                                   for _ in range(rng.choice((7, 7, 8, 9, 10, 12, 16, 64)))]
                    elif x < 0.4:
                        c["pwid"] = outside(rng, 801, 849)
                    else:
                        c.setdefault("addr", [at_edge(rng, *r) for r in ADDR])
                        n = rng.randrange(4)
                        c["addr"][n] = outside(rng, *ADDR[n])
            op = dict(gen.base(rng, rng.choice(gen.OPS)), cfg=c)
            if rng.random() < 0.3 and len(ops):
                op["line"] = 1           # over the line of the client before, which is done with it
            if bad and rng.random() < 0.3:
                op["own"] = rng.choice((6, 7, 7, 8, 12))    # own connection; another password length
            if rng.random() < 0.1:
                op["f"] = [gen.faults_io(rng, c["tr"])]
            elif rng.random() < 0.2:
                op["hold"] = 1           # stays connected while the next ones are made
            ops.append(op)
        return {"cfg": base, "ops": ops}

    @classmethod
    def fits(cls, c):
        return (len(c["pw"]) <= 6 and 801 <= c["pwid"] <= 849
                and all(low <= v <= high for v, (low, high) in zip(c.get("addr") or (), ADDR)))

    @classmethod
    def busy(cls, s):
        return (s.w.open_handles, len(s.w.links), len(s.dev.journal))

    @classmethod
    def run(cls, scn, box, trace=False):
        s = cls.open(scn, box, trace)
        line = held = None
        i = 0
        for op in scn["ops"]:
            c = op["cfg"]
            if cls.fits(c) and held is not None:
                held, line = cls.leave(held), None
            if line is None or not op.get("line") or held is not None:
                line = s.make_transport(c)
            if cls.fits(c):
                s.cfg, s.cipher = c, s.client_cipher(c)
                s.dev = s.make_device(c)
                s.place(s.dev)
                s.client = s.make_client(c, line)
                i = cls.use(s, i, op)
                if op.get("hold"):
                    held = s.client
                else:
                    s.no_hang(s.step(i, {"op": "disconnect"}))
                    i += 1
                continue
            before = cls.busy(s)
            s.k.fault("wrong_setting")
            try:
                client = s.make_client(c, line)
            except Violation as e:
                if not isinstance(e.__cause__, Exception):
                    raise
                client = None
            if client is not None:
                raise Violation(i, "a connection was made with %s" % cls.text(c))
            if cls.busy(s) != before:
                raise Violation(i, "something was opened or sent for settings that are refused")
            i += 1
        if held is not None:
            cls.leave(held)
        long = [op for op in scn["ops"] if op.get("own", 0) > 6]
        for op in long:
            i = cls.late(s, i, op)

    @classmethod
    def text(cls, c):
        return "address %s, password of %d, password id %d" % (
            c.get("addr"), len(c["pw"]), c["pwid"])

    @classmethod
    def use(cls, s, i, op):
        r = s.step(i, {"op": "connect"})
        s.no_hang(r)
        if r["out"].kind != "val":
            raise Violation(i, "connect %s" % r["out"].text)
        r = s.step(i + 1, op)
        s.no_hang(r)
        if op.get("f"):
            s.check_outcome(r, [("comm", None)])
            s.check_requests(r, complete=False)
        else:
            s.want_value(r)
            s.check_requests(r)
        return i + 2

    @classmethod
    def leave(cls, client):
        client.disconnect()

    @classmethod
    def late(cls, s, i, op):
        """A connection the user made, and a client with a password that does not fit: nothing of
        it is sent."""
        c = dict(s.cfg, pw=[(op["cfg"]["pw"] or [65])[0]] * op["own"], pwid=801, enc=None)
        fit = dict(c, pw=c["pw"][:6], addr=[0, 0, 0, 0])
        s.cfg, s.cipher = c, None
        s.dev = s.make_device(c)
        s.place(s.dev)
        line = s.make_transport(c)
        client = s.make_client(fit, line)
        try:
            client = E.client.ElgasClient(transport=line, password=s.password(c), password_id=801,
                                          elgas_connection=client.elgas_connection)
        except Exception:
            return i + 1
        s.client = client
        r = s.step(i, {"op": "connect"})
        s.no_hang(r)
        op = {k: v for k, v in op.items() if k not in ("f", "cfg")}
        r = s.step(i + 1, op)
        s.no_hang(r)
        if op["op"] != "read_time":
            if s.requests(r):
                raise Violation(i, "%s with a password of %d characters was sent" % (
                    op["op"], len(c["pw"])))
            if r["out"].kind == "val":
                raise Violation(i, "%s returned without being sent" % op["op"])
        s.step(i + 2, {"op": "disconnect"})
        return i + 3
