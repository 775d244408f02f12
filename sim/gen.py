"""Scenario generators' shared parts. Everything random about a run is decided here and written
into the scenario, either as a value or as the seed of a small generator."""
from . import params, proto
from .device import NASTY, any_time, blob

READS = ("read_time", "read_instantaneous_values", "read_archive", "read_archive_by_time",
         "read_parameters")
OPS = READS + ("write_time",)
ALNUM = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def sd(rng):
    return rng.randrange(1 << 30)


OWN = 0.2                        # share of TCP configurations with a transport of the user


def cfg(rng, tr=None, enc=None, T=None, own=False):
    c = {"tr": tr or rng.choice(("tcp", "tcp", "serial")),
         "T": T or rng.choice((1, 2, 5, 10, 10, 30, 0.5, 2.5)),
         "pw": password(rng), "pwid": rng.randint(801, 849), "enc": None}
    if enc if enc is not None else rng.random() < 0.4:
        c["enc"] = key(rng)
    if own and c["tr"] == "tcp" and rng.random() < OWN:
        c["own"] = 1             # the user's own transport, which hands over what has arrived
    return c


UNENCODABLE = ("amount", "amount2", "id", "id2", "negative", "object", "object2", "year", "late",
               "early record", "late record")


def password(rng):
    if rng.random() < 0.05:          # shorter than its place in a request
        return [rng.choice(ALNUM) for _ in range(rng.randrange(6))]
    if rng.random() < 0.15:
        return [rng.choice(NASTY) for _ in range(6)]
    if rng.random() < 0.1:
        return [rng.randrange(256) for _ in range(6)]
    return [rng.choice(ALNUM) for _ in range(6)]


ZONES = ("EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3",
         "IST-5:30", "<-03>3", "AAA12")


def several(rng, low, high, long=(40, 120, 270)):
    """How many operations: mostly a few, rarely a lot."""
    n = rng.randint(low, high)
    return rng.choice(long) if rng.random() < 0.004 else n


def zone(rng, scn):
    """Sometimes the host is somewhere else than at Greenwich."""
    if rng.random() < 0.25:
        scn["tz"] = rng.choice(ZONES)
    return scn


def key(rng):
    return {"key": bytes(rng.randrange(256) for _ in range(rng.choice((16, 16, 16)))).hex(),
            "kid": rng.randint(1, 7)}


def sched(rng):
    return [rng.choice((0, 1, 1, 1, 2)), rng.choice((0, 1, 1, 2))]


def base(rng, name):
    op = {"op": name, "c": sd(rng), "r": sd(rng), "s": sd(rng), "sch": sched(rng)}
    a = args(rng, name)
    if a:
        op["a"] = a
    if name == "read_parameters":
        op["count"] = rng.choice((1, 2, 3, 5, 8, rng.randint(1, 12)))
        op["base"] = a.get("from", 0)
        if rng.random() < 0.4:
            op["small_pages"] = 1
        if rng.random() < 0.25:
            op["lazy_end"] = 1
    return op


def args(rng, name):
    if name == "read_archive":
        return {"archive": rng.randrange(11),
                "amount": rng.choice((0, 1, 10, 13, 27, 255, 256, 65535, rng.randrange(65536))),
                "id": rng.choice((0, 1, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 32 - 1,
                                  0x0D1B8D0E, rng.randrange(2 ** 32), rng.randrange(2 ** 32)))}
    if name == "read_archive_by_time":
        return {"archive": rng.randrange(11),
                "amount": rng.choice((0, 1, 10, 13, 27, 255, 256, 65535, rng.randrange(65536))),
                "time": fraction(rng, any_time(rng)), **zoned(rng)}
    if name == "write_time":
        a = {"time": fraction(rng, any_time(rng)), **zoned(rng)}
        if rng.random() < 0.3:
            a["cryout"] = 1
        return a
    if name == "read_parameters":
        return {"from": rng.choice((0, 0, 0, 1, 7, 255, 256, 300, 3341, 65000))}
    return {}


def zoned(rng):
    """Now and then a time that knows its zone, or is the second of two equal ones."""
    x = rng.random()
    if x < 0.06:
        return {"zone": rng.choice((0, 0, 60, 120, -300, 330, 765, -719))}
    return {"fold": 1} if x < 0.08 else {}


def fraction(rng, t):
    """Now and then a time between two seconds, as clocks give it."""
    if rng.random() < 0.85 or t[0] >= 2099:
        return t
    return list(t) + [rng.choice((1, 499999, 500001, 999999, rng.randrange(1, 10 ** 6)))]


def mutation(rng):
    """A change a line can do to a frame."""
    kind = rng.choice(("flip", "flip", "flip", "set", "drop", "drop", "ins", "cut", "dup", "swap"))
    pos = round(rng.random(), 4)
    if kind == "flip":
        val = rng.choice((1, 2, 4, 8, 16, 32, 64, 128, 255, rng.randint(1, 255)))
    elif kind in ("set", "ins"):
        val = rng.choice((0, 0x0D, 0x1B, 0x8D, 0x02, 0xFE, 0xFF, rng.randrange(256)))
    elif kind in ("drop", "dup"):
        val = rng.choice((1, 1, 1, 2, 3, 16))
    else:
        val = 0
    return [kind, pos, val]


def mutations(rng):
    return [mutation(rng) for _ in range(rng.choice((1, 1, 1, 2, 3)))]


def damage(rng):
    """Mutations of the line, or of a frame before its check bytes were made."""
    if rng.random() < 0.85:
        return mutations(rng)
    kind, pos, val = mutation(rng)
    return [["seal-" + kind, rng.choice((pos, pos, 0.16, 0.2)), val]]


def noise(rng, ended=True):
    """Line noise: never something that is, or completes to, a valid frame by itself."""
    k = rng.random()
    if k < 0.3:
        b = b"\r" * rng.choice((1, 1, 2, 5))
        return b if ended else b[:-1]
    b = blob(rng, rng.choice((1, 2, 5, 20)), 0.5)
    if k < 0.5:
        b = b"\x02\xfe\x86" + b
    if ended:
        return b + b"\r"
    return b.replace(b"\r", b"\x00")


def other_service(rng, name, but=()):
    """A service that neither the operation nor those in but use, if there is one."""
    no = {proto.SVC[name]} | {proto.SVC[n] for n in but}
    return rng.choice([v for k, v in proto.SVC.items() if v not in no and k != "call"]
                      or [proto.SVC["call"]])


def jumps(rng):
    out = []
    for _ in range(rng.randint(1, 3)):
        out.append([rng.randint(1, 60), rng.choice((-1, 1)) * rng.choice((0.5, 3, 11, 100, 86400))])
    return out


MORE = {"tcp": {
    "recv": ("ETIMEDOUT", "EHOSTDOWN", "ENETDOWN", "ENETUNREACH", "ENETRESET", "ENOTCONN", "EBADF",
             "EINVAL", "ENOMEM"),
    "send": ("ETIMEDOUT", "EHOSTDOWN", "ENETDOWN", "ENETUNREACH", "ENETRESET", "ENOTCONN", "EBADF",
             "ENOMEM", "EPERM", "EACCES", "ESHUTDOWN"),
    "connect": ("ETIMEDOUT", "EHOSTDOWN", "ENETDOWN", "ENETUNREACH", "EADDRNOTAVAIL", "EACCES",
                "EPERM", "ENOMEM", "EINVAL", "ENONET", "ECONNABORTED", "gai again", "gai nodata",
                "herror", "idna", "idna"),
    "shutdown": ("EBADF", "EINVAL", "ETIMEDOUT", "ENOMEM"), "close": ("EBADF", "ETIMEDOUT", "EIO")},
    "serial": {
    "recv": ("ENXIO", "ENODEV", "EBADF", "ENOTTY", "EPROTO", "sclosed"),
    "send": ("ENXIO", "ENODEV", "EBADF", "ENOTTY", "EPROTO", "sclosed"),
    "connect": ("ENXIO", "ENODEV", "EBUSY", "ENOTTY", "EINVAL", "sopen", "termios", "termios"),
    "close": ("ENXIO", "ENODEV", "EBADF", "ENOTTY")}}


def more(rng, tr, fault):
    """Sometimes a less common error instead."""
    if rng.random() < 0.35:
        fault["k"] = rng.choice(MORE[tr][fault["m"]])
    return fault


def faults_io(rng, tr, ops=("recv", "send")):
    return more(rng, tr, _faults_io(rng, tr, ops))


def connect_fault(rng, tr):
    return more(rng, tr, _connect_fault(rng, tr))


def disconnect_fault(rng, tr):
    return more(rng, tr, _disconnect_fault(rng, tr))


def _faults_io(rng, tr, ops):
    m = rng.choice(ops)
    if m == "send":
        k = rng.choice(("reset", "pipe", "timeout", "oserr", "unreach", "nobufs", "aborted")
                       if tr == "tcp" else ("serial", "swrite", "oserr"))
        return {"m": "send", "n": 0, "k": k, "part": rng.choice((0, 0, 0.5, 0.9, 1))}
    k = rng.choice(("reset", "timeout", "oserr", "eof", "unreach", "aborted")
                   if tr == "tcp" else ("serial", "timeout", "oserr"))
    return {"m": "recv", "n": rng.choice((0, 1, 2, 5, 15, rng.randrange(40))), "k": k}


def _connect_fault(rng, tr):
    return {"m": "connect", "n": 0, "k": rng.choice(
        ("refused", "timeout", "unreach", "gai", "mfile", "oserr") if tr == "tcp"
        else ("serial", "noport", "perm", "oserr"))}


def _disconnect_fault(rng, tr):
    if tr == "tcp":
        m = rng.choice(("shutdown", "shutdown", "close"))
        return {"m": m, "n": 0, "k": rng.choice(("enotconn", "oserr", "timeout")
                                                if m == "shutdown" else ("oserr", "reset"))}
    return {"m": "close", "n": 0, "k": rng.choice(("oserr", "serial"))}


def line_number(rng):
    """Where in an operation an interrupt arrives, in lines of the library's code."""
    return int(10 ** rng.uniform(0, 3.7))
