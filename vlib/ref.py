"""Reference encoders used only to make interesting inputs (never as an oracle)."""
import hashlib

C32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def dsha(b):
    return hashlib.sha256(hashlib.sha256(bytes(b)).digest()).digest()


def c32(b):
    b = bytes(b)
    z = len(b) - len(b.lstrip(b"\0"))
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 32)
        s = C32[r] + s
    return "0" * z + s


def c32check(b, ver):
    b = bytes(b)
    return C32[ver] + c32(b + dsha(bytes([ver]) + b)[:4])


def addr(h, ver=22):
    return "S" + c32check(h, ver)


def b58(b):
    b = bytes(b)
    z = len(b) - len(b.lstrip(b"\0"))
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * z + s


def b58check(b, ver):
    p = bytes([ver]) + bytes(b)
    return b58(p + dsha(p)[:4])


TAGS = {"int": 0, "uint": 1, "buf": 2, "true": 3, "false": 4, "std": 5, "con": 6, "ok": 7, "err": 8, "none": 9,
        "some": 10, "list": 11, "tuple": 12, "ascii": 13, "utf8": 14}


def u32(n):
    return n.to_bytes(4, "big")


def unaddr(a):
    """version and hash of an address text that was made here"""
    s = bytes(a).decode()
    ver = C32.index(s[1])
    n = 0
    for c in s[2:]:
        n = n * 32 + C32.index(c)
    return bytes([ver]) + n.to_bytes(24, "big")[:20]


def enc(v):
    """wire bytes of a representable value"""
    t = v["t"]
    tag = bytes([TAGS[t]]) if t in TAGS else b""
    if t in ("int", "uint"):
        return tag + bytes(v["v"])
    if t == "buf":
        return tag + u32(len(v["v"])) + bytes(v["v"])
    if t in ("true", "false", "none"):
        return tag
    if t == "std":
        return tag + unaddr(v["a"])
    if t == "con":
        return tag + unaddr(v["a"]) + bytes([len(v["n"])]) + bytes(v["n"])
    if t in ("ok", "err", "some"):
        return tag + enc(v["x"])
    if t in ("list", "args"):
        return tag + u32(len(v["xs"])) + b"".join(map(enc, v["xs"]))
    if t == "tuple":
        return tag + u32(len(v["kv"])) + b"".join(bytes([len(e["k"])]) + bytes(e["k"]) + enc(e["x"]) for e in v["kv"])
    if t in ("ascii", "utf8"):
        return tag + u32(len(v["s"])) + bytes(v["s"])
    if t == "lps":
        return bytes([len(v["s"])]) + bytes(v["s"])
    raise ValueError(t)


def enc_payload(p):
    if p["t"] == "transfer":
        return b"\0" + enc(p["to"]) + bytes(p["amount"]) + bytes(p["memo"]).ljust(34, b"\0")
    return (b"\2" + bytes([p["ver"]]) + bytes(p["hash"]) + bytes([len(p["contract"])]) + bytes(p["contract"])
            + bytes([len(p["fn"])]) + bytes(p["fn"]) + enc({"t": "args", "xs": p["args"]}))
