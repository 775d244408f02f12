"""Independent implementation of the ELGAS wire format, used by the simulated device and by the
reference predictor.  Written from the protocol description; shares no code with elgas."""
import functools

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

REQ, EREQ, RSP, ERSP = 0x84, 0x85, 0x86, 0x87

SVC = {
    "read_instantaneous_values": 0x64,
    "read_time": 0x6C,
    "read_parameters": 0x70,
    "write_time": 0x71,
    "read_archive": 0x7C,
    "read_archive_by_time": 0x7D,
    "call": 0x87,
}
SVC_NAME = {v: k for k, v in SVC.items()}
KNOWN_SERVICES = {
    0x64, 0x65, 0x67, 0x7B, 0x68, 0x7C, 0x6C, 0x70, 0x71, 0x77, 0x79, 0x87, 0x91, 0x7D,
}


class Bad(Exception):
    """A line, or a payload, that is not valid."""


# ---------------------------------------------------------------- redundancy
def lrc(b):
    x = 0
    for v in b:
        x ^= v
    return x


def checksum(b):
    return sum(b) & 0xFF


def drc(b):
    x = 0
    for v in b:
        x = (((x << 1) | (x >> 7)) & 0xFF) ^ v
    return x


def crc16(b):
    crc = 0xFFFF
    for v in b:
        crc ^= v
        for _ in range(8):
            crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return crc & 0xFF, crc >> 8  # order on the wire: low byte first


# ---------------------------------------------------------------- framing
def frame(kind, service, data, addr=(0, 0, 0, 0)):
    """A complete frame, not escaped."""
    d1, d2, s1, s2 = addr
    body = bytes([0xFE, kind, service])
    body += (len(data) + 15).to_bytes(2, "little")
    body += d1.to_bytes(2, "little") + bytes([d2]) + s1.to_bytes(2, "little") + bytes([s2])
    body += bytes(data)
    return b"\x02" + body + bytes([lrc(body), checksum(body), drc(body), 0x0D])


def reseal(fr):
    """The frame with check bytes that fit what is in it, whatever its length field says."""
    body = fr[1:-4]
    return fr[:-4] + bytes([lrc(body), checksum(body), drc(body), 0x0D])


def escape(fr):
    out = bytearray()
    for v in fr[:-1]:
        if v == 0x0D:
            out += b"\x1b\x0e"
        elif v == 0x1B:
            out += b"\x1b\x1b"
        elif v == 0x8D:
            out += b"\x1b\x0f"
        else:
            out.append(v)
    return bytes(out) + b"\x0d"


@functools.lru_cache(512)
def unescape(line, strict=True):
    """`line` ends with 0D."""
    out = bytearray()
    i, body = 0, line[:-1]
    while i < len(body):
        v = body[i]
        if v == 0x1B:
            nxt = body[i + 1] if i + 1 < len(body) else None
            rep = {0x0E: 0x0D, 0x1B: 0x1B, 0x0F: 0x8D}.get(nxt)
            if rep is None:
                if strict:
                    raise Bad("escape")
                out.append(v)
                if nxt is not None:
                    out.append(nxt)
            else:
                out.append(rep)
            i += 2
        else:
            if strict and v == 0x8D:
                raise Bad("unescaped 8D")
            out.append(v)
            i += 1
    return bytes(out) + b"\x0d"


class Frame:
    __slots__ = ("kind", "service", "addr", "data")

    def __init__(self, kind, service, addr, data):
        self.kind, self.service, self.addr, self.data = kind, service, addr, data


def parse(fr):
    if len(fr) < 16 or fr[0] != 0x02 or fr[1] != 0xFE or fr[-1] != 0x0D:
        raise Bad("delimiters")
    if int.from_bytes(fr[4:6], "little") != len(fr) - 1:
        raise Bad("length")
    body = fr[1:-4]
    if fr[-4] != lrc(body) or fr[-3] != checksum(body) or fr[-2] != drc(body):
        raise Bad("redundancy")
    addr = (
        int.from_bytes(fr[6:8], "little"), fr[8], int.from_bytes(fr[9:11], "little"), fr[11],
    )
    return Frame(fr[2], fr[3], addr, fr[12:-4])


# ---------------------------------------------------------------- encryption
def encrypt(data, key, key_id, rng):
    pad = (-(len(data) + 2)) % 16
    padding = bytes(rng.randrange(256) for _ in range(pad))
    head = len(data).to_bytes(2, "little") + bytes([key_id])
    c = crc16(head + data + padding)
    enc = Cipher(algorithms.AES(key), modes.CBC(key)).encryptor()
    return head + enc.update(data + padding + bytes(c)) + enc.finalize()


def decrypt(blob, key, key_id):
    if len(blob) < 19 or (len(blob) - 3) % 16:
        raise Bad("cipher length")
    if blob[2] != key_id:
        raise Bad("key id")
    dec = Cipher(algorithms.AES(key), modes.CBC(key)).decryptor()
    plain = dec.update(blob[3:]) + dec.finalize()
    if bytes(crc16(blob[:3] + plain[:-2])) != plain[-2:]:
        raise Bad("crc")
    n = int.from_bytes(blob[:2], "little")
    return plain[:n]


# ---------------------------------------------------------------- values
def bcd(n):
    return (n // 10) << 4 | (n % 10)


def unbcd(b):
    hi, lo = b >> 4, b & 15
    if hi > 9 or lo > 9:
        raise Bad("bcd")
    return hi * 10 + lo


def time_bytes(t, dst=False, sup=False):
    """t = [year, month, day, hour, minute, second]"""
    y, mo, d, h, mi, s = t
    return bytes([bcd(s), bcd(mi), bcd(h) | (0x80 if dst else 0) | (0x40 if sup else 0),
                  bcd(d), bcd(mo), bcd(y - 2000)])


def time_parse(b):
    if len(b) != 6:
        raise Bad("time")
    t = [unbcd(b[5]) + 2000, unbcd(b[4]), unbcd(b[3]), unbcd(b[2] & 0x3F), unbcd(b[1]), unbcd(b[0])]
    import datetime
    try:
        datetime.datetime(*t)
    except ValueError:
        raise Bad("time")
    return t, bool(b[2] & 0x80), bool(b[2] & 0x40)


def parse_request(service, data):
    """Decode the application part of a request. -> (password, fields)"""
    if service == SVC["read_time"]:
        if data:
            raise Bad("read time takes no data")
        return None, {}
    if len(data) < 10:
        raise Bad("no password")
    pw, rest = data[:10], data[10:]
    if service == SVC["read_instantaneous_values"]:
        if rest:
            raise Bad("trailing data")
        return pw, {}
    if service == SVC["write_time"]:
        if len(rest) != 7:
            raise Bad("write time length")
        t, dst, sup = time_parse(rest[:6])
        return pw, {"time": t, "flags": rest[6], "hour_bits": rest[2] & 0xC0}
    if service == SVC["read_parameters"]:
        if len(rest) != 4:
            raise Bad("params length")
        return pw, {"first": int.from_bytes(rest[:2], "little"),
                    "buffer": int.from_bytes(rest[2:], "little")}
    if service == SVC["read_archive"]:
        if len(rest) != 7:
            raise Bad("archive length")
        return pw, {"archive": rest[0], "id": int.from_bytes(rest[1:5], "little"),
                    "amount": int.from_bytes(rest[5:], "little")}
    if service == SVC["read_archive_by_time"]:
        if len(rest) != 9:
            raise Bad("archive by time length")
        t, dst, sup = time_parse(rest[3:])
        return pw, {"archive": rest[0], "amount": int.from_bytes(rest[1:3], "little"),
                    "time": t, "hour_bits": rest[5] & 0xC0}
    raise Bad("unknown service")


def parse_response(service, data):
    """Decode the application part of a response to the fields a user can observe."""
    if service == SVC["read_time"]:
        if len(data) < 9:
            raise Bad("short")
        t, dst, sup = time_parse(data[:6])
        return {"time": t, "is_dst": dst, "device_supports_dst": sup,
                "data_access_result": data[6:7], "extra_data": data[7:-2]}
    if service == SVC["read_instantaneous_values"]:
        if len(data) < 6 + 1 + 8 + 8 + 2:
            raise Bad("short")
        t, dst, sup = time_parse(data[:6])
        return {"current_time": t, "is_dst": dst, "supports_dst": sup, "data": data[6:-19],
                "data_access": data[-19], "status": data[-18:-10], "summary_status": data[-10:-2],
                "parameter_crc": data[-2:]}
    if service == SVC["write_time"]:
        return {}
    if service == SVC["read_parameters"]:
        if len(data) < 5:
            raise Bad("short")
        return {"object_number": int.from_bytes(data[:2], "little"),
                "object_amount": int.from_bytes(data[2:4], "little"),
                "is_end": bool(data[4]), "data": data[5:]}
    if service in (SVC["read_archive"], SVC["read_archive_by_time"]):
        if len(data) < 5 or data[0] > 10:
            raise Bad("short")
        return {"archive": data[0], "oldest_record_id": int.from_bytes(data[1:5], "little"),
                "data": data[5:]}
    raise Bad("service")


# ---------------------------------------------------------------- reference receiver
ERR_NAMES = ["WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer", "DataError",
             "CipherKeyError", "WrongEncryptionKeysError", "WriteError"]


def errors_of(code):
    return [n for i, n in enumerate(ERR_NAMES) if code & (1 << i)]


def _interpret(fr, cipher):
    """What a frame means to a client. cipher = (key, key_id) or None.
    -> ('rsp', service, data) | ('err', service, [names]) | ('undecodable',)"""
    data = fr.data
    if fr.kind == RSP:
        pass
    elif fr.kind == ERSP:
        if cipher is None:
            return ("undecodable",)
        try:
            data = decrypt(data, *cipher)
        except Bad:
            return ("undecodable",)
    else:
        raise Bad("not a response")
    if fr.service not in KNOWN_SERVICES:
        raise Bad("service")
    if len(data) == 1 and data[0]:
        return ("err", fr.service, errors_of(data[0]))
    return ("rsp", fr.service, data)


@functools.lru_cache(512)
def classify(line, cipher):
    """Meaning of one received line, as (certain, [meanings]).

    certain: there is exactly one meaning and a receiver has no choice.  Otherwise a receiver may
    ignore the line, or take it for one of the meanings (sloppy escapes, noise before the STX).
    No meaning at all: the line has to be ignored."""
    try:
        return True, [_interpret(parse(unescape(line)), cipher)]
    except Bad:
        pass
    out = []
    for candidate in _lenient(line):
        try:
            m = _interpret(parse(candidate), cipher)
        except Bad:
            continue
        if m not in out:
            out.append(m)
    return False, out


def _lenient(line):
    fr = unescape(line, strict=False)
    yield fr
    for src in {fr, line} if line.count(b"\x02\xfe") else {fr}:
        i = src.find(b"\x02\xfe", 1)
        while i > 0:
            tail = src[i:]
            yield tail if src is fr else unescape(tail, strict=False)
            i = src.find(b"\x02\xfe", i + 1)
