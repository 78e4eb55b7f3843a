"""Seeded generators of call histories, one per property. A history is a list of
commands for the harness; what should happen is decided by the specification."""
import json
import os
import random

from . import lits, ref

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
VERSIONS = (22, 20, 26, 21)
CODES = (1, 2, 3, 4, 5, 16, 17)
TYPES = ("int", "uint", "buf", "true", "false", "std", "con", "ok", "err", "none", "some", "list", "tuple", "ascii", "utf8")
DECODERS = ("any",) + TYPES + ("lps", "args")


def L(x):
    return list(x)


def T(s):
    return list(s.encode())


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ints, self.texts = lits.literals()
        self.words = [bytes(w).decode() for w in json.load(open(HERE + "/spec/bip39_english.json"))]

    # --- scalars -------------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    def lit(self, top, chance=0.15):
        """None, or a number below top that has to do with what the source mentions"""
        if not self.ints or not self.p(chance):
            return None
        x = self.pick(self.ints)
        k = self.r.randrange(8)
        if k == 4:
            x += 1
        elif k == 5:
            x -= 1
        elif k == 6:
            x *= self.r.randrange(1, 4)
        elif k == 7:
            x += self.pick(self.ints)
        return x if 0 <= x < top else None

    def word(self, chance=0.1):
        """None, or a text the source mentions"""
        return self.pick(self.texts) if self.texts and self.p(chance) else None

    def count(self, n, top=80):
        """n, or another number of parts"""
        x = self.lit(top, 0.08)
        return n if x is None else x

    def raw(self, n):
        return self.r.randbytes(n)

    def num(self, bits):
        """an interesting unsigned number of that many bits"""
        k = self.r.randrange(8)
        top = 1 << bits
        x = self.lit(top)
        if x is not None:
            if self.p(0.25):
                x += self.pick(self.ints) * self.r.randrange(1 << self.r.randrange(1, bits))
            return (x if self.p(0.9) else -x) % top
        if k == 0:
            if self.p(0.5):
                return (self.pick([1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 48, 1 << 53, 1 << 56, 1 << 63, 1 << 64,
                                   1 << 96, 1 << 127, top - (1 << 31), top - (1 << 63), top - (1 << 64)]) + self.r.randrange(-2, 3)) % top
            return self.pick([0, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 65535, 65536]) % top
        if k == 1:
            return top - 1 - self.r.randrange(3)
        if k == 2:
            return ((1 << self.r.randrange(bits)) + self.r.randrange(-1, 2)) % top
        if k == 3:
            return (top >> 1) + self.r.randrange(-2, 2)
        if k == 4:
            return (10 ** self.r.randrange(len(str(top))) + self.r.randrange(-1, 1)) % top
        if k == 5:
            return self.r.randrange(1 << self.r.randrange(1, bits + 1))
        if k == 6:      # one byte set
            return (self.r.randrange(1, 256) << (8 * self.r.randrange(bits // 8))) % top
        return self.r.randrange(top)

    def u64(self):
        return L(self.num(64).to_bytes(8, "big"))

    def size(self, big=True):
        x = self.lit(2200 if big else 300)
        if x is not None:
            return x
        k = self.r.randrange(20)
        if k < 9:
            return self.r.randrange(0, 6)
        if k < 15:
            return self.r.randrange(0, 40)
        if k < 18 or not big:
            return self.pick([15, 16, 17, 31, 32, 33, 34, 35, 39, 40, 41, 63, 64, 65, 100, 127, 128, 129])
        return self.pick([200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025])

    def ascii(self, n):
        """ascii text of n characters, often with an edge to it"""
        s = self.plain(n)
        w = self.word()
        if w and w.isascii() and len(w) <= n:
            i = self.pick([0, n - len(w), self.r.randrange(n - len(w) + 1)])
            return s[:i] + w + s[i + len(w):] if self.p(0.7) else (w * n)[:n]
        if n and self.p(0.3):
            e = self.pick(["\0", " ", "\n", "\r", "\t", "\x7f", "\0\0", "  ", "\r\n", '"', "'", "\\", "0", "1", "0x", "u", ".", "-", "(", ")",
                           "%", "/", "{", "}", "none", "true", "\\n", "\\u{1f600}", "\\x00"])
            k = self.r.randrange(4)
            s = (e + s)[:n] if k == 0 else s[:max(0, n - len(e))] + e if k < 3 else s[:n // 2] + e + s[n // 2:]
            s = s[:n]
        if self.p(0.1):
            s = self.pick([s.upper(), s.lower(), s.swapcase(), s[:1] * n])
        return s

    def plain(self, n):
        k = self.r.randrange(4)
        if k == 0:
            return "".join(chr(self.r.randrange(128)) for _ in range(n))
        if k == 1:
            return "".join(self.pick("\"\\() 0xu'\n.") for _ in range(n))
        return "".join(self.pick("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_!?") for _ in range(n))

    def char(self):
        k = self.r.randrange(6)
        if k < 2:
            return chr(self.r.randrange(128))
        if k == 2:
            return chr(self.r.randrange(128, 0x800))
        if k == 3:
            return self.pick("\x80\x85\xa0\xad\xff\u0130\u0131\u017f\u0300\u07ff\u0800\u200b\u2028\u212a\ud7ff\ue000\ufeff\ufffd\uffff\U00010000\U0010ffff")
        if k == 4:
            c = self.r.randrange(0x800, 0x10000)
            return chr(c) if not 0xD800 <= c < 0xE000 else "é"
        return chr(self.r.randrange(0x10000, 0x110000))

    def utf8(self, n):
        """text of at most n bytes"""
        if self.p(0.4):
            return self.ascii(n)
        s = "".join(self.char() for _ in range(n))
        w = self.word()
        if w and len(w.encode()) <= n:
            i = self.r.randrange(len(s) + 1)
            s = s[:i] + w + s[i:]
            while len(s.encode()) > n:
                s = s[:-1] if len(s) > i + len(w) else s[1:]
                i = min(i, max(0, len(s) - len(w)))
            return s
        if self.p(0.3):
            e = self.pick(["\0", " ", "\n", "\ufeff", "\u3000", "\xa0", "é", "e\u0301", '"', "\\"])
            s = e + s if self.p(0.3) else "".join(self.char() for _ in range(self.r.randrange(0, n + 1))) + e
        while len(s.encode()) > n:
            s = s[:-1] if len(s) > 1 and self.p(0.5) else s[1:]
        return s

    def name(self, bad=False):
        if bad:
            return T(self.pick(["a" * 129, "b" * 200, "é" * 65, "c" * 256, "x" * 128 + "é", "d" * 384]))
        x = self.lit(129, 0.1)
        if x is not None:
            return T(self.ascii(x) if self.p(0.7) else self.utf8(x))
        w = self.word()
        if w and len(w.encode()) <= 128:
            return T(w)
        k = self.r.randrange(10)
        if k == 0:
            return T(self.pick(["", "a" * 128, "b" * 127, "é" * 64, "ok", "tuple", "a.b", "c" * 40, "d" * 41, "e" * 126, "f" * 64, "Z" * 128]))
        if k == 1:
            return T(self.utf8(self.r.randrange(1, 129)))
        if k == 2:
            return T(self.ascii(self.pick([16, 30, 32, 39, 40, 41, 63, 64, 65, 100, 127, 128])))
        return T(self.ascii(self.r.randrange(1, 12)))

    def hash20(self):
        k = self.r.randrange(6)
        x = self.lit(256, 0.1)
        if x is not None:
            h = bytearray(self.raw(20))
            h[self.pick([0, 19, self.r.randrange(20)])] = x
            return bytes(h) if self.p(0.8) else bytes([x] * 20)
        if k == 0:
            return bytes(20)
        if k == 1:
            return b"\xff" * 20
        if k == 2:      # leading zeros
            z = self.r.randrange(1, 20)
            return bytes(z) + self.raw(20 - z)
        if k == 3:
            return bytes([self.pick([0, 1, 127, 128, 255])] * 20)
        return self.raw(20)

    def addr(self, bad=False):
        a = ref.addr(self.hash20(), self.pick(VERSIONS))
        if not bad:
            return T(a)
        k = self.r.randrange(8)
        if k == 0:
            i = self.r.randrange(len(a))
            return T(a[:i] + self.pick([c for c in ref.C32 if c != a[i]]) + a[i + 1:])
        if k == 1:
            i = self.r.randrange(len(a))
            return T(a[:i] + a[i + 1:])
        if k == 2:
            return T(self.pick(["", "S", "SP", "ST0000", "hello", "é", "SP" + "é" * 10, " " + a, a + " "]))
        if k == 3:
            return T(ref.addr(self.hash20(), self.pick([v for v in range(32) if v not in VERSIONS])))
        if k == 4:
            return T(ref.addr(self.raw(self.pick([0, 1, 19, 21, 32])), self.pick(VERSIONS)))
        if k == 5:
            return T(self.pick("TXs0") + a[1:])
        if k == 6:
            i = self.r.randrange(1, len(a) - 1)
            b = a[:i] + a[i + 1] + a[i] + a[i + 2:]
            return T(b) if b != a else T(a[:-1])
        return T(a[:self.r.randrange(len(a))])

    def key(self):
        k = self.r.randrange(6)
        if k == 0:
            n = self.pick([1, 2, 3, ORDER - 1, ORDER - 2, (ORDER - 1) // 2, 1 << 128, 1 << 255])
        else:
            n = self.lit(ORDER, 0.1) or self.r.randrange(1, ORDER)
        return L(n.to_bytes(32, "big"))

    def keys(self, n):
        return [self.key() for _ in range(n)]

    def content(self):
        """bytes that look like something: numbers, text, hex, encodings"""
        k = self.r.randrange(7)
        if k < 3:
            return self.data()
        if k == 3:
            return self.raw(self.r.randrange(0, 20)) + bytes(self.r.randrange(1, 6))
        if k == 4:
            return self.utf8(self.size(False)).encode()
        if k == 5:
            return self.pick([b"", b"0x", b"\0"]) + self.raw(self.r.randrange(0, 6)).hex().encode()
        return ref.enc(self.value(0))

    # --- Clarity values --------------------------------------------------------
    def value(self, depth=3, t=None):
        if t is None:
            leaf = depth <= 0 or self.p(0.45)
            t = self.pick(["int", "uint", "buf", "true", "false", "std", "con", "none", "ascii", "utf8"] if leaf
                          else ["ok", "err", "some", "list", "tuple", "list", "tuple"])
        v = {"t": t}
        if t in ("int", "uint"):
            v["v"] = L(self.num(128).to_bytes(16, "big"))
        elif t == "buf":
            v["v"] = L(self.raw(self.size()) if self.p(0.5) else self.content())
        elif t == "std":
            v["a"] = self.addr()
        elif t == "con":
            v["a"], v["n"] = self.addr(), self.name()
        elif t in ("ok", "err", "some"):
            v["x"] = self.value(depth - 1)
        elif t in ("list", "args"):
            n = self.count(self.r.randrange(0, 5) if depth > 0 else self.r.randrange(0, 2))
            if self.p(0.04):
                n = self.pick([7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65])
            if self.p(0.5) and n:
                k = self.value(depth - 1)["t"]      # of one type, as Clarity has it
                v["xs"] = [self.value(depth - 1, k) for _ in range(n)]
            else:
                v["xs"] = [self.value(depth - 1) for _ in range(n)]
            if n > 1 and self.p(0.15):              # the same element again, or a close one
                i = self.r.randrange(n)
                x = v["xs"][self.pick([max(0, i - 1), 0, n - 1])]
                v["xs"][i] = json.loads(json.dumps(x)) if self.p(0.7) else self.near(x)
        elif t == "tuple":
            ks = []
            for _ in range(self.count(self.r.randrange(0, 5) if self.p(0.96) else self.pick([8, 9, 10, 16, 17, 32, 33]), 40)):
                k = self.name()
                if self.p(0.15) and ks:         # close to a key there is
                    k = self.pick([ks[-1][:-1], ks[-1] + [97], L(bytes(ks[-1]).upper()), L(bytes(ks[-1]).lower())])[:128]
                    if bytes(k).decode(errors="replace").encode() != bytes(k):
                        continue
                if k not in ks:
                    ks.append(k)
            v["kv"] = [{"k": k, "x": self.value(depth - 1)} for k in ks]
            if len(ks) > 1 and self.p(0.15):
                v["kv"][-1]["x"] = json.loads(json.dumps(v["kv"][0]["x"]))
        elif t == "ascii":
            v["s"] = T(self.ascii(self.size()))
        elif t == "utf8":
            v["s"] = T(self.utf8(self.size()))
        elif t == "lps":
            v["s"] = self.name()
        if self.p(0.25):
            v["alt"] = self.pick([1, 2, 3])         # another of the library's ways to make it
        return v

    def chain(self, n):
        """n wrappers around a leaf"""
        v = self.value(0)
        kinds = ["ok", "err", "some", "list", "tuple"]
        if self.p(0.5):
            kinds = [self.pick(kinds)]              # all of one kind
        for _ in range(n):
            k = self.pick(kinds)
            v = ({"t": "list", "xs": [v]} if k == "list" else
                 {"t": "tuple", "kv": [{"k": T("k"), "x": v}]} if k == "tuple" else {"t": k, "x": v})
        return v

    def wide(self):
        n = self.lit(1100, 0.5) or self.pick([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300])
        if self.p(0.5):
            x = self.value(0, self.pick(["true", "none", "uint"]))
            return {"t": self.pick(["list", "args"]), "xs": [x] * n}
        return {"t": "tuple", "kv": [{"k": T("k%d" % i), "x": {"t": "true"}} for i in range(n)]}

    def unrepresentable(self, depth=3):
        """a value with one part the format cannot hold"""
        if depth > 0 and self.p(0.6):
            t = self.pick(["ok", "err", "some", "list", "tuple", "args"])
            x = self.unrepresentable(depth - 1)
            if t in ("list", "args"):
                xs = [self.value(1) for _ in range(self.r.randrange(0, 3))]
                xs.insert(self.r.randrange(len(xs) + 1), x)
                return {"t": t, "xs": xs}
            if t == "tuple":
                kv = [{"k": T("a%d" % i), "x": self.value(1)} for i in range(self.r.randrange(0, 3))]
                kv.insert(self.r.randrange(len(kv) + 1), {"k": T("bad"), "x": x})
                return {"t": t, "kv": kv}
            return {"t": t, "x": x}
        k = self.r.randrange(6)
        if k == 0:
            s = self.ascii(self.size(False))
            i = self.r.randrange(len(s) + 1)
            return {"t": "ascii", "s": T(s[:i] + self.pick("\x80é\u20ac\U0001f600\xff") + s[i:])}
        if k == 1:
            return {"t": "std", "a": self.addr(True)}
        if k == 2:
            return {"t": "con", "a": self.addr(True), "n": self.name()}
        if k == 3:
            return {"t": "con", "a": self.addr(), "n": self.name(True)}
        if k == 4:
            return {"t": "tuple", "kv": [{"k": self.name(True), "x": self.value(1)}]}
        return {"t": "lps", "s": self.name(True)} if depth == 3 else {"t": "std", "a": self.addr(True)}

    def top(self):
        v = self.top_()
        return self.p(0.05) and v["t"] not in ("buf", "int") and self.akin(v) or v

    def akin(self, x):
        c = self.kin({"op": "", "": x})
        return c and c[""]

    def top_(self):
        k = self.r.randrange(30)
        if k == 0:
            return self.chain(self.lit(130, 0.4) or self.r.randrange(5, 40) if self.p(0.8) else self.pick([48, 63, 64, 65, 66, 80, 100, 128, 129]))
        if k == 1:
            return self.wide()
        if k == 2:
            return self.value(2, "args")
        if k == 3:
            return self.value(2, "lps")
        if k == 4:
            return {"t": self.pick(["ascii", "utf8"]), "s": T("x" * self.pick([255, 256, 300, 65535, 65536]) if self.p(0.1)
                                                               else "y" * self.pick([127, 128, 255, 256]))}
        return self.value(self.r.randrange(0, 5))

    # --- groups of stateless commands ----------------------------------------------
    def group(self, cmds, n=25):
        out, cur = [], []
        for c in cmds:
            cur.append(c)
            if self.p(0.12):        # and a relation of it, and itself again
                x = self.kin(c)
                cur += ([x, c] if self.p(0.5) else [x]) if x else []
            if len(cur) >= n:
                out.append(cur)
                cur = []
        return out + ([cur] if cur else [])

    def relatives(self, sessions, share=0.08):
        """after some of the histories, the same with one command replaced by a relation"""
        out = []
        for x in sessions:
            out.append(x)
            if x and self.p(share):
                i = 0 if self.p(0.6) else self.r.randrange(len(x))
                c = self.kin(x[i])
                if c:
                    out.append(x[:i] + [c] + x[i + 1:])
        return out

    def kin(self, cmd):
        """a command easily taken for this one: parts exchanged, moved, reordered or a little changed"""
        if len(json.dumps(cmd)) > 20000:
            return None
        cmd = json.loads(json.dumps(cmd))
        dicts, todo = [], [cmd]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                dicts.append(x)
                todo += [v for k, v in x.items() if k != "ans"]
            elif isinstance(x, list):
                todo += [v for v in x if not isinstance(v, int)]
        text = lambda v: isinstance(v, list) and v and all(isinstance(i, int) for i in v)
        web = cmd["op"] == "rpc"
        ways = []
        for d in dicts:
            num = [k for k in ("fee", "nonce", "amount") if text(d.get(k)) and len(d[k]) == 8]
            ways += [("swap", d, x, d, y) for x in num for y in num if x < y and d[x] != d[y]] * 3
            for x, y in (("n", "s"), ("contract", "fn")):
                if not web and text(d.get(x)) and text(d.get(y)) and max(d[x] + d[y]) < 128:
                    ways += [("swap", d, x, d, y), ("move", d, x, y), ("move", d, x, y), ("copy", d, x, d[y]), ("copy", d, y, d[x])]
            ways += [("case", d, k) for k in ("s", "n", "k", "contract", "fn", "memo") if text(d.get(k)) and any(97 <= i | 32 <= 122 for i in d[k])]
            ways += [("bit", d, k) for k in num + [k for k in ("b", "v", "hash") if text(d.get(k)) and not (k == "v" and "k" in d)]]
            ways += [("order", d, k) for k in ("xs", "kv", "args", "pcs", "keys") if isinstance(d.get(k), list) and len(d[k]) > 1]
            if d.get("ver") in VERSIONS:
                ways.append(("ver", d))
        for i, d in enumerate(dicts):
            for e in dicts[:i]:
                for k in ("a", "n", "s", "amount", "fee", "nonce"):
                    if text(d.get(k)) and text(e.get(k)):
                        ways += [("swap", d, k, e, k)] * (d[k] != e[k]) + [("copy", d, k, e[k]), ("copy", e, k, d[k])]
                if text(d.get("k")) and text(e.get("k")) and max(d["k"] + e["k"]) < 128:
                    ways.append(("copy", d, "k", e["k"]))
        if not ways:
            return None
        how, d, *r = self.pick(ways)
        if how == "swap":
            d[r[0]], r[1][r[2]] = r[1][r[2]], d[r[0]]
        elif how == "move":
            x, y = (r[0], r[1])
            if self.p(0.5):
                d[y] = [d[x].pop()] + d[y]
            else:
                d[x].append(d[y].pop(0))
        elif how == "case":
            i = self.pick([i for i, c in enumerate(d[r[0]]) if 97 <= c | 32 <= 122])
            d[r[0]][i] ^= 32
        elif how == "copy":         # as it is, or nearly
            k, x = r[0], list(r[1])
            letters = [i for i, c in enumerate(x) if 97 <= c | 32 <= 122]
            if k in ("fee", "nonce", "amount"):
                if self.p(0.5):     # the number next to it
                    x = L(((int.from_bytes(bytes(x), "big") + self.pick([1, -1])) % 2 ** 64).to_bytes(8, "big"))
            elif k != "a" and (k == "k" or self.p(0.6)):
                h = self.r.randrange(4)
                if h < 2 and letters:
                    for i in letters if h else [self.pick(letters)]:
                        x[i] ^= 32
                elif h == 2 and len(x) > 1 and max(x) < 128:
                    x.pop(self.pick([0, -1]))
                else:
                    x.append(self.pick(T("a1-!")))
            if k == "k" and any(x == e.get("k") for e in dicts):
                return None
            d[k] = x
        elif how == "bit":
            d[r[0]][self.r.randrange(len(d[r[0]]))] ^= 1 << self.r.randrange(8)
        elif how == "order":
            x = d[r[0]]
            i, j = self.r.sample(range(len(x)), 2)
            x[i], x[j] = x[j], x[i]
        else:
            d["ver"] = self.pick([v for v in VERSIONS if v != d["ver"]])
        return cmd

    def C01(self, n):
        def one():
            return {"op": "cv.enc", "v": self.unrepresentable() if self.p(0.2) else self.top()}
        return self.group([one() for _ in range(n)])

    def C02(self, n):
        out = []
        while len(out) < n:
            v = self.top()
            b = ref.enc(v)
            tail = self.pick([b"", b"", b"\0", self.raw(self.r.randrange(1, 6)), ref.enc(self.value(1)), b"\xff" * 4])
            own = v["t"]
            if own not in ("lps", "args"):
                out.append({"op": "cv.dec", "b": L(b + tail), "as": "any"})
            out.append({"op": "cv.dec", "b": L(b + tail), "as": own})
            if own not in ("lps", "args") and self.p(0.5):
                out.append({"op": "cv.dec", "b": L(b + tail), "as": self.pick([x for x in TYPES if x != own])})
        return self.group(out)

    def mutate(self, b):
        b = bytearray(b)
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            k = self.r.randrange(9)
            i = self.r.randrange(len(b)) if b else 0
            if k == 0:
                b = b[:i]
            elif k == 1 and b:
                b[i] ^= 1 << self.r.randrange(8)
            elif k == 2 and b:
                x = self.lit(256, 0.5)
                b[i] = x if x is not None else self.pick([0, 1, 5, 6, 7, 10, 11, 12, 13, 14, 15, 127, 128, 129, 255])
            elif k == 3:
                b[i:i] = self.raw(self.r.randrange(1, 4))
            elif k == 4 and b:
                del b[i]
            elif k == 5 and len(b) > 4:
                i = self.r.randrange(len(b) - 3)
                b[i:i + 4] = self.pick([b"\0\0\0\0", b"\0\0\0\1", b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\0\1\0\0", b"\x80\0\0\0"])
            elif k == 6 and b:
                b[0] = self.r.randrange(0, 17)
            elif k == 7:
                b += ref.enc(self.value(1))
            elif b:
                b[-1] ^= 0x80
        return bytes(b)

    def garbage(self):
        k = self.r.randrange(8)
        x = self.lit(300, 0.1)
        if x is not None:
            return self.pick([self.raw(x), bytes([x % 256]) + self.raw(self.r.randrange(0, 25)), bytes([self.pick([2, 13, 14])]) + ref.u32(x) + b"a" * x])
        if k == 0:
            return self.raw(self.r.randrange(0, 30))
        if k == 1:
            return bytes([self.r.randrange(0, 16)]) + self.raw(self.r.randrange(0, 25))
        if k == 2:      # a tag and a length that may or may not fit
            n = self.r.randrange(0, 6)
            return bytes([self.pick([2, 11, 12, 13, 14])]) + ref.u32(self.pick([0, 1, n, n, n + 1, 2 ** 31, 2 ** 32 - 1])) + \
                self.pick([self.raw(n), b"\x03" * n, b"a" * n, b"\x00\x03" * n, b"\x01a\x03" * n])
        if k == 3:
            return bytes([self.pick([5, 6])]) + bytes([self.r.randrange(0, 40)]) + self.raw(self.pick([19, 20, 20, 20, 21])) + \
                self.pick([b"", b"\0", b"\1a", b"\x80" + b"n" * 128, b"\x81" + b"n" * 129, b"\2\xc3\x28"])
        v = self.value(self.r.randrange(0, 4))
        b = ref.enc(v)
        if k == 4:
            return b[:self.r.randrange(len(b) + 1)]
        if k == 5:      # text that is not ascii or not UTF-8
            s = self.pick([b"\x80", b"\xc3", b"\xc3\xa9", b"\xff", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82"])
            s = b"a" * self.r.randrange(3) + s + b"b" * self.r.randrange(2)
            x = bytes([self.pick([13, 14])]) + ref.u32(len(s)) + s
            return self.pick([x, b"\x0a" + x, b"\x0b" + ref.u32(1) + x, b"\x0c" + ref.u32(1) + bytes([len(s)]) + s + b"\x03"])
        return self.mutate(b)

    def C03(self, n):
        out = []
        while len(out) < n:
            if self.p(0.06):                # every truncation of one value
                b = ref.enc(self.value(2))
                if len(b) < 60:
                    out += [{"op": "cv.dec", "b": L(b[:i]), "as": "any"} for i in range(len(b) + 1)]
                    continue
            b = self.garbage()
            if self.p(0.02):
                b = b"\x0a" * self.r.randrange(50, 200) + b
            if self.p(0.15):
                w = self.value(1, self.pick(["lps", "args"]))
                out.append({"op": "cv.dec", "b": L(self.mutate(ref.enc(w))), "as": w["t"]})
                continue
            a = "any" if self.p(0.5) or not b or b[0] > 14 else self.pick([TYPES[b[0]], TYPES[b[0]], TYPES[b[0]], self.pick(DECODERS)])
            out.append({"op": "cv.dec", "b": L(b), "as": a})
        return self.group(out)

    def near(self, v):
        """a value of the same type that differs little"""
        v = json.loads(json.dumps(v))
        v.pop("alt", None)
        t = v["t"]
        if t in ("int", "uint"):
            i = self.r.randrange(16)
            v["v"][i] ^= 1 << self.r.randrange(8)
        elif t == "buf":
            v["v"] = L(self.mutate(bytes(v["v"])))
        elif t == "std":
            v["a"] = self.addr()
        elif t == "con":
            if self.p(0.5):
                v["a"] = self.addr()
            else:
                v["n"] = self.name()
        elif t in ("ok", "err", "some"):
            v["x"] = self.near(v["x"]) if self.p(0.6) else self.value(2)
        elif t in ("list", "args"):
            xs = v["xs"]
            k = self.r.randrange(5)
            if not xs or k == 0:
                xs.insert(self.r.randrange(len(xs) + 1), self.value(1))
            elif k == 1:
                i = self.r.randrange(len(xs))
                xs[i] = self.near(xs[i])
            elif k == 2:
                xs.pop(self.r.randrange(len(xs)))
            elif k == 3:
                self.r.shuffle(xs)
            else:
                xs[-1] = {"t": self.pick(["ok", "some", "err"]), "x": xs[-1]}
        elif t == "tuple":
            kv = v["kv"]
            k = self.r.randrange(5)
            if not kv or k == 0:
                kv.append({"k": T("zz%d" % self.r.randrange(1000)), "x": self.value(1)})
            elif k == 1:
                i = self.r.randrange(len(kv))
                kv[i]["x"] = self.near(kv[i]["x"])
            elif k == 2:
                kv.pop(self.r.randrange(len(kv)))
            elif k == 3:
                self.r.shuffle(kv)
            else:
                i = self.r.randrange(len(kv))
                kv[i]["k"] = T("yy%d" % self.r.randrange(1000))
        elif t in ("ascii", "utf8", "lps"):
            s = bytes(v["s"]).decode()
            k = self.r.randrange(4)
            i = self.r.randrange(len(s) + 1)
            if k == 0 and len(s) < 100:
                s = s[:i] + self.pick("abZ09 \"()") + s[i:]
            elif k == 1:
                s = s[:i] + s[i + 1:]
            elif k == 2:
                s = s.swapcase()
            else:
                s = s[::-1]
            if t == "ascii":
                s = s.encode("ascii", "ignore").decode()
            v["s"] = T(s)[:128] if len(s) == len(s.encode()) else T(s)
            if t == "lps" and len(v["s"]) > 128:
                v["s"] = T("q")
        return v

    def lookalikes(self):
        """pairs whose texts coincide or nearly do, with different content"""
        a = lambda s: {"t": "ascii", "s": T(s)}
        u = lambda s: {"t": "utf8", "s": T(s)}
        l = lambda *x: {"t": "list", "xs": L(x)}
        g = lambda *x: {"t": "args", "xs": L(x)}
        tu = lambda *x: {"t": "tuple", "kv": [{"k": T(k), "x": y} for k, y in x]}
        tr, no = {"t": "true"}, {"t": "none"}
        some = lambda x: {"t": "some", "x": x}
        n = lambda t, i: {"t": t, "v": L((i % (1 << 128)).to_bytes(16, "big"))}
        ad = T(ref.addr(self.hash20(), 22))
        con = lambda nm: {"t": "con", "a": ad, "n": T(nm)}
        return [
            (l(a("a"), a("b")), l(a('a" "b'))), (l(l()), l(l(l()))), (l(), l(l())), (l(tr), l(tr, tr)),
            (g(a("a"), a("b")), g(a('a" "b'))), (tu(("a", tr), ("b", tr)), tu(("a true) (b", tr))),
            (tu(("k", a('x') ),), tu(("k", a('x") (j "y')))), (tu(("k", a("x")), ("j", a("y"))), tu(("k", a('x") (j "y')))),
            (some(a("x")), some(u("x"))), (l(u("x")), l({"t": "ascii", "s": T('x')})), (l(n("int", 1)), l(n("uint", 1))),
            (l(n("int", -1)), l(n("uint", -1))), (l(tr, no), l(no, tr)), (tu(("a", tr), ("b", no)), tu(("b", no), ("a", tr))),
            (con("a.b"), con("a")), (con("x"), con("X")), (n("int", 1 << 127), n("int", 0)), (n("int", -1), n("int", 1)),
            (n("uint", 1 << 127), n("uint", 0)), (n("uint", 1 << 64), n("uint", 0)), (n("int", 1 << 64), n("int", 0)),
            ({"t": "buf", "v": []}, {"t": "buf", "v": [0]}), ({"t": "buf", "v": [0, 1]}, {"t": "buf", "v": [1]}),
            (a(""), a(" ")), (a("a\0"), a("a")), (u("é"), u("e\u0301")), (u('"'), u('""')),
            (l(con("b")), l({"t": "std", "a": ad})), (some(some(no)), some(no)), ({"t": "ok", "x": tr}, {"t": "ok", "x": some(tr)}),
            (l(a("(some true)")), l(some(tr))), (g(n("int", 12), n("int", 3)), g(n("int", 1), n("int", 23))),
            (l(con("a")), l({"t": "ascii", "s": ad + T(".a")})), ({"t": "lps", "s": T("a")}, {"t": "lps", "s": T("a ")}),
            (l(tu(("a", tr))), l(tu(("a", tr), ("b", tr)))), (tu(("ab", tr)), tu(("a", tr))),
        ]

    def C04(self, n):
        out = []
        for v, w in self.lookalikes():
            out += [{"op": "cv.eq", "v": v, "w": w}, {"op": "cv.eq", "v": w, "w": v}, {"op": "cv.eq", "v": v, "w": v}]
        while len(out) < n:
            k = self.r.randrange(10)
            v = self.top()
            if k < 3:
                out.append({"op": "cv.eq", "v": v, "w": self.near(v)})
            elif k == 3:
                out.append({"op": "cv.eq", "v": v, "w": json.loads(json.dumps(v))})
            elif k == 4:
                out.append({"op": "cv.eq", "v": v, "w": self.value(2, v["t"])})
            elif k < 6:
                out.append({"op": "cv.clone", "v": v})
            elif k == 6:
                out.append({"op": "cv.own", "v": v})
            else:
                inner = v["t"] in ("ok", "err", "some") and self.p(0.7)
                x = v["x"] if inner else v
                to = x["t"] if self.p(0.5) else self.pick(TYPES + ("lps", "args"))
                out.append({"op": "cv.cast", "v": v, "to": to, "inner": inner})
        return self.group(out)

    def C05(self, n):
        return self.group([{"op": "cv.show", "v": self.top()} for _ in range(n)])

    # --- tuples -------------------------------------------------------------------
    def C06(self, n):
        out, total = [], 0
        while total < n:
            ks = [self.name() for _ in range(max(2, self.count(self.r.randrange(2, 6) if self.p(0.85) else self.r.randrange(8, 40), 60)))]
            if self.p(0.3):
                ks = [T(x) for x in self.pick([["a", "A", "aa", "b"], ["a", "a ", "", "é"], ["k", "k1", "k10", "1k"]])]
            probes = [L(x) for x in set(map(tuple, ks))][:4]
            ks0 = []
            for k in ks:
                if k not in ks0 and self.p(0.6):
                    ks0.append(k)
            cmds = []
            if self.p(0.8):
                cmds.append({"op": "tup.new", "slot": 1, "kv": [{"k": k, "x": self.value(1)} for k in ks0], "probes": probes})
            for _ in range(self.count(self.r.randrange(4, 16) if self.p(0.9) else self.r.randrange(30, 60))):
                s = self.pick([1, 1, 1, 2, 3])
                k = self.pick(ks)
                o = self.pick(["tup.ins", "tup.ins", "tup.ins", "tup.rem", "tup.rem", "tup.get", "tup.set", "tup.set", "tup.copy"])
                c = {"op": o, "slot": s, "probes": probes}
                if o == "tup.copy":
                    c["to"] = self.pick([x for x in (1, 2, 3) if x != s])
                else:
                    c["k"] = k
                    if o in ("tup.ins", "tup.set"):
                        c["x"] = self.unrepresentable(1) if self.p(0.02) else self.value(1)
                cmds.append(c)
            out.append(cmds)
            total += len(cmds)
        return out

    # --- text codecs ----------------------------------------------------------------
    def data(self):
        k = self.r.randrange(8)
        x = self.lit(300, 0.12)
        if x is not None:
            b = bytearray(self.raw(self.r.randrange(1, 30)))
            b[self.pick([0, -1, self.r.randrange(len(b))])] = x % 256
            return self.pick([bytes(b), self.raw(x), bytes([x % 256] * self.r.randrange(1, 30)), bytes(x), bytes(b)])
        w = self.word()
        if w:
            return self.pick([b"", self.raw(3)]) + w.encode() + self.pick([b"", self.raw(3)])
        if k == 0:
            return bytes(self.r.randrange(0, 8))
        if k == 1:
            return bytes(self.r.randrange(1, 6)) + self.raw(self.size(False))
        if k == 2:
            return bytes([self.pick([0, 1, 31, 32, 57, 58, 127, 128, 255])] * self.r.randrange(1, 30))
        if k == 3:
            return bytes([self.pick([1, 2, 4, 8, 16, 31, 32, 128])]) + bytes(self.r.randrange(0, 30))
        if k == 4:
            return self.raw(self.size())
        return self.raw(self.r.randrange(0, 30))

    def damage(self, s, alphabet):
        """s with a few characters changed"""
        for _ in range(self.pick([1, 1, 1, 2])):
            i = self.r.randrange(len(s) + 1)
            k = self.r.randrange(8)
            w = self.word()
            if w:
                s = s[:i] + w + s[i + self.pick([0, len(w)]):]
            elif k == 0:
                s = s[:i] + s[i + 1:]
            elif k == 1:
                s = s[:i] + self.pick(alphabet) + s[i:]
            elif k == 2 and i < len(s):
                s = s[:i] + self.pick(alphabet) + s[i + 1:]
            elif k == 3 and i + 1 < len(s):
                s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
            elif k == 4:
                s = s[:i] + self.pick("OILUoilu-_/:@[`{g !\0\x7f") + s[i:]
            elif k == 5 and i < len(s):
                s = s[:i] + self.pick("\x80\xff\u0100\u0130\u0131\u212a\u20ac\U0001f600éİK") + s[i + 1:]
            elif k == 6 and i < len(s):
                s = s[:i] + s[i].swapcase() + s[i + 1:]
            else:
                s = self.pick([alphabet[0], alphabet[1]]) + s
        return s

    def C07(self, n):
        out = []
        while len(out) < n:
            b = self.data()
            h = b.hex()
            k = self.r.randrange(6)
            if k == 0:
                out.append({"op": "hex.enc", "b": L(b)})
                continue
            if k == 1:
                h = h.upper()
            elif k == 2:
                h = "".join(c.upper() if self.p(0.5) else c for c in h)
            elif k == 3:
                h = self.damage(h, "0123456789abcdefABCDEF")
            elif k == 4:
                h = self.pick(["0x", "0X", "+", "-", " ", "#"]) * self.r.randrange(0, 2) + self.damage(h, "0123456789abcdef+- xg")
            out.append({"op": "hex.dec", "s": T(h)})
        out += [{"op": "hex.dec", "s": T(x)} for x in ("+1", "-1", "0x", " 1", "1 ", "é", "é1", "1é", "a", "ﬀ", "１２")]
        return self.group(out)

    def C08(self, n):
        out = []
        while len(out) < n:
            b = self.data()
            s = ref.c32(b)
            k = self.r.randrange(6)
            if k < 2:
                out.append({"op": "c32.enc", "b": L(b)})
                continue
            if k == 2:
                s = "".join(self.pick([c, c.lower(), "O" if c == "0" else c, "o" if c == "0" else c,
                                       self.pick("ILil") if c == "1" else c]) for c in s)
            elif k == 3:
                s = self.damage(s, ref.C32)
            elif k == 4:
                s = "".join(self.pick(ref.C32 + ref.C32.lower() + "OILoil") for _ in range(self.size(False)))
            out.append({"op": "c32.dec", "s": T(s)})
        return self.group(out)

    def C09(self, n):
        out = []
        while len(out) < n:
            k = self.r.randrange(12)
            ver = self.pick(VERSIONS)
            if k == 0:
                out.append({"op": "addr.enc", "b": L(self.hash20()), "ver": ver if self.p(0.7) else self.r.randrange(256)})
            elif k == 1:
                out.append({"op": "c32c.enc", "b": L(self.data()), "ver": self.r.randrange(32) if self.p(0.7) else self.r.randrange(256)})
            elif k == 2:
                out.append({"op": "c32c.dec", "s": T(ref.c32check(self.data(), self.r.randrange(32)))})
            elif k == 3:
                out.append({"op": "c32c.dec", "s": T(self.damage(ref.c32check(self.data(), self.r.randrange(32)), ref.C32))})
            elif k == 4:
                b, v = self.data(), self.r.randrange(32)
                s = ref.C32[v] + ref.c32(b + bytes(self.pick([ref.dsha(bytes([v]) + b)[:3], ref.dsha(b)[:4], ref.dsha(bytes([v ^ 1]) + b)[:4],
                                                               b"", ref.dsha(bytes([v]) + b)[:5], ref.dsha(bytes([v]) + b)[-4:]])))
                out.append({"op": "c32c.dec", "s": T(s)})
            elif k < 7:
                out.append({"op": "addr.dec", "s": self.addr()})
            elif k == 7:
                a = bytes(self.addr()).decode()
                out.append({"op": "addr.dec", "s": T(a[0] + a[1:].lower())})
            elif k == 8:
                a = bytes(self.addr()).decode()
                out.append({"op": "addr.dec", "s": T(self.damage(a, ref.C32))})
            elif k == 9:
                a = bytes(self.addr()).decode()
                a = a[0] + "".join(self.pick("Oo0") if c == "0" else self.pick("ILil1") if c == "1" else c for c in a[1:])
                out.append({"op": "addr.dec", "s": T(a)})
            else:
                out.append({"op": "addr.dec", "s": self.addr(True)})
        return self.group(out)

    def C10(self, n):
        out = []
        while len(out) < n:
            k = self.r.randrange(8)
            b, ver = self.data(), self.r.randrange(256)
            if k == 0:
                out.append({"op": "b58.enc", "b": L(b)})
            elif k == 1:
                out.append({"op": "b58.dec", "s": T(ref.b58(b))})
            elif k == 2:
                out.append({"op": "b58.dec", "s": T(self.damage(ref.b58(b), ref.B58))})
            elif k == 3:
                out.append({"op": "b58c.enc", "b": L(b), "ver": self.pick([0, 5, 111, 196, ver])})
            elif k == 4:
                out.append({"op": "b58c.dec", "s": T(ref.b58check(b, self.pick([0, 0, 5, ver])))})
            elif k == 5:
                out.append({"op": "b58c.dec", "s": T(self.damage(ref.b58check(b, ver), ref.B58))})
            elif k == 6:
                p = bytes([ver]) + b
                s = ref.b58(self.pick([p + ref.dsha(p)[:3], p + ref.dsha(b)[:4], b[:4], b[:5], p + ref.dsha(p)[-4:],
                                       ref.dsha(b"")[:4], p + ref.dsha(p)[:4] + b"\0", b"\0" + p + ref.dsha(p)[:4]]))
                out.append({"op": "b58c.dec", "s": T(s)})
            else:
                s = "".join(self.pick(ref.B58 + "0OIl") if self.p(0.1) else self.pick(ref.B58) for _ in range(self.size(False)))
                out.append({"op": self.pick(["b58.dec", "b58c.dec"]), "s": T(s)})
        return self.group(out)

    def C11(self, n):
        out = []
        while len(out) < n:
            k = self.r.randrange(4)
            if k < 2:
                m = self.pick([0, 1, 3, 54, 55, 56, 57, 63, 64, 65, 110, 111, 112, 113, 119, 120, 127, 128, 129, 255, 256, 500, self.r.randrange(300)])
                m = self.count(m, 1200)
                out.append({"op": "hash", "alg": self.pick(["sha256", "dsha256", "sha512t256", "hash160"]),
                            "b": L(self.pick([self.raw(m), bytes(m), b"\xff" * m, b"a" * m]))})
            elif k == 2:
                out.append({"op": "keyhash", "mode": self.pick([0, 2]), "key": self.key()})
            else:
                m = self.count(self.pick([1, 2, 2, 3, 3, 4, 5, 7, 15, 16, 20]), 40) or 1
                ks = self.keys(m)
                if self.p(0.1):
                    ks[-1] = ks[0]
                out.append({"op": "keyshash", "mode": self.pick([1, 3]), "req": self.r.randrange(1, m + 1), "keys": ks})
        return self.group(out)

    # --- transactions -------------------------------------------------------------------
    def who(self):
        return self.value(0, self.pick(["std", "con"]))

    def info(self, bad=False):
        k = self.r.randrange(3) if bad else -1
        return {"a": self.addr(k == 0), "n": self.name(k == 1), "s": self.name(k == 2)}

    def pc(self, bad=False):
        t = self.pick(["stx", "ft", "nft"])
        wb = bad and (t == "stx" or self.p(0.5))
        c = {"t": t, "code": self.pick(CODES),
             "who": self.who() if not wb else self.pick([self.value(1, self.pick(["int", "true", "ascii", "list", "none", "utf8", "some", "lps", "buf", "tuple"])),
                                                         {"t": "std", "a": self.addr(True)}, {"t": "con", "a": self.addr(True), "n": T("c")},
                                                         {"t": "con", "a": self.addr(), "n": self.name(True)}])}
        if t != "nft":
            c["amount"] = self.u64()
        if t != "stx":
            c["info"] = self.info(bad and not wb and (t == "ft" or self.p(0.7)))
        if t == "nft":
            c["id"] = self.value(2)
            if bad and not wb and self.p(0.3):
                c["id"] = self.unrepresentable(2)
                if c["id"]["t"] == "lps":
                    c["id"] = {"t": "std", "a": self.addr(True)}
        return c

    def pcs(self, k=None, bad=False):
        n = self.count(self.pick([0, 0, 1, 1, 2, 3])) if k is None else k
        if self.p(0.2) and not bad:                 # through the library's macro, which takes them one by one
            ts = self.pick([[], ["stx"], ["ft"], ["nft"], ["stx", "stx"], ["stx", "ft"], ["ft", "nft"], ["nft", "stx"]])
            xs = []
            for t in ts if k is None else ts[:k]:
                c = self.pc()
                while c["t"] != t:
                    c = self.pc()
                if c["who"]["t"] != "std":
                    c["who"] = {"t": "std", "a": self.addr()}
                if t == "nft":
                    c["id"] = self.value(0, "uint")
                xs.append(dict(c, alt=1))
            return xs
        xs = [self.pc() for _ in range(n)]
        if bad:
            xs.insert(self.r.randrange(n + 1), self.pc(True))
        return xs

    def C12(self, n):
        out = []
        while len(out) < n:
            if self.p(0.01):
                out.append({"op": "pc.enc", "pcs": [self.pc()] * self.pick([255, 256, 257])})
            out.append({"op": "pc.enc", "pcs": self.pcs(self.count(self.pick([0, 1, 1, 1, 2, 3, 4])), self.p(0.2))})
        return self.group(out)

    def memo(self, bad=False):
        if bad:
            return T(self.pick(["m" * 35, "m" * 100, "é" * 18, "m" * 34 + "é", "x" * 300]))
        k = self.r.randrange(6)
        if k == 0:
            return T(self.pick(["", "a" * 34, "a" * 33, "é" * 17, "\0", "a\0b", "\0" * 34, "trailing\0"]))
        return T(self.utf8(self.count(self.r.randrange(0, 35), 35)))

    def payload(self, bad=False):
        p = self.payload_(bad)
        return self.p(0.12) and self.akin(p) or p

    def payload_(self, bad=False):
        if self.p(0.5):
            b = bad and self.p(0.6)
            to = self.who()
            if bad and not b:
                to = self.pick([{"t": "std", "a": self.addr(True)}, {"t": "con", "a": self.addr(), "n": self.name(True)}])
            return {"t": "transfer", "to": to, "amount": self.u64(), "memo": self.memo(b)}
        k = self.r.randrange(3) if bad else -1
        args = [self.value(2) for _ in range(self.count(self.pick([0, 1, 1, 2, 3]), 40))]
        if k == 2:
            x = self.unrepresentable(2)
            args.insert(self.r.randrange(len(args) + 1), x if x["t"] not in ("lps", "args") else {"t": "ascii", "s": T("é")})
        return {"t": "call", "ver": self.pick(VERSIONS), "hash": L(self.hash20()), "contract": self.name(k == 0),
                "fn": self.name(k == 1), "args": args}

    def C13(self, n):
        out = []
        while len(out) < n:
            k = self.r.randrange(8)
            if k < 3:
                out.append({"op": "pay.enc", "p": self.payload(self.p(0.25))})
                continue
            p = self.payload()
            if p["t"] == "transfer":
                p["memo"] = self.memo()
            b = ref.enc_payload(p)
            own = p["t"]
            if k < 5:
                b += self.pick([b"", b"\0", self.raw(3), ref.enc_payload(self.payload())])
                out.append({"op": "pay.dec", "b": L(b), "as": own})
                out.append({"op": "pay.dec", "b": L(b), "as": "any"})
                if self.p(0.4):
                    out.append({"op": "pay.dec", "b": L(b), "as": "call" if own == "transfer" else "transfer"})
            else:
                if k == 5:
                    b = b[:self.r.randrange(len(b) + 1)]
                elif k == 6:
                    b = self.mutate(b)
                else:
                    b = bytes([self.r.randrange(0, 5)]) + self.raw(self.r.randrange(0, 80))
                out.append({"op": "pay.dec", "b": L(b), "as": self.pick(["any", own, own, "transfer", "call"])})
        # a transfer to something that is no principal is read back like any other
        return self.group(out)

    def one(self, mode=None, key=None):
        return {"k": "one", "mode": self.pick([0, 2]) if mode is None else mode, "key": key or self.key(),
                "fee": self.u64(), "nonce": self.u64()}

    def multi(self, keys, req, mode=None):
        return {"k": "multi", "mode": self.pick([1, 3]) if mode is None else mode, "req": req, "keys": keys,
                "fee": self.u64(), "nonce": self.u64()}

    def tx(self, kind="std", origin=None, sponsor=None, small=True):
        v = self.p(0.5)
        pay = self.payload()
        if small:
            pay = {"t": "transfer", "to": {"t": "std", "a": self.addr()}, "amount": self.u64(), "memo": T(self.ascii(self.r.randrange(0, 8)))} \
                if self.p(0.6) else {"t": "call", "ver": self.pick(VERSIONS), "hash": L(self.hash20()), "contract": T("c"), "fn": T("f"),
                                     "args": [self.value(0) for _ in range(self.r.randrange(0, 2))]}
        return {"version": 0 if v else 128, "chain": [0, 0, 0, 1] if v != self.p(0.1) else [128, 0, 0, 0], "kind": kind,
                "origin": origin or self.one(), "sponsor": sponsor or {"k": "def"}, "anchor": self.pick([1, 2, 3]),
                "pcmode": self.pick([1, 2]), "pcs": self.pcs(self.pick([0, 0, 1]) if small else None), "payload": pay}

    def buildspec(self):
        d = {"net": self.pick(["main", "test", "mock"]), "sender": self.key()}
        bad = self.p(0.06)
        if self.p(0.5):
            d.update(what="transfer", to=self.who(), amount=self.u64())
            if self.p(0.6):
                d["memo"] = self.memo(bad)
        else:
            d.update(what="call", address=self.addr(bad), contract=self.name(), fn=self.name(),
                     args=[self.value(2) for _ in range(self.count(self.pick([0, 1, 2]), 40))])
        every = self.p(0.5)
        for k, g in (("fee", self.u64), ("nonce", self.u64), ("anchor", lambda: self.pick([1, 2, 3])),
                     ("pcmode", lambda: self.pick([1, 2])), ("pcs", self.pcs)):
            if every or self.p(0.4):
                d[k] = g()
        return d

    def C14(self, n):
        out, total = [[{"op": "net", "net": x}] for x in ("main", "test", "mock")], 3
        while total < n:
            cmds = [{"op": "tx.build", "d": self.buildspec()}]
            if self.p(0.25):
                kind = self.pick(["std", "spon"])
                org = self.one() if self.p(0.6) else self.multi(self.keys(self.pick([1, 2, 3])), 1)
                spo = self.pick([{"k": "def"}, self.one(), self.multi(self.keys(2), 2)])
                cmds = [{"op": "tx.make", "d": self.tx(kind, org, spo, False)}]
            for _ in range(self.r.randrange(0, 4)):
                k = self.r.randrange(7)
                if k == 6:
                    cmds.append(self.pick([self.modify(), {"op": "tx.sponsor", "c": self.pick([{"k": "def"}, self.one()])}, {"op": "tx.reset"}]))
                elif k < 2:
                    cmds.append({"op": "tx.fee", "x": self.u64()})
                elif k < 4:
                    cmds.append({"op": "tx.nonce", "x": self.u64()})
                elif k == 4:
                    cmds.append(self.edit())
                else:
                    cmds.append({"op": self.pick(["tx.save", "tx.load"])})
            out.append(cmds)
            total += len(cmds)
        return out

    def modify(self, sig=None):
        cmd = self.pick(["sig", "addsig", "key", "addkey"])
        x = self.key() if "key" in cmd else L(self.pick([bytes(65), self.raw(65), self.raw(65), b"\1" + self.raw(64)]))
        return {"op": "tx.modify", "who": self.pick(["origin", "origin", "sponsor"]), "cmd": cmd, "x": x}

    def edit(self):
        f = self.pick(["version", "chain", "anchor", "pcmode", "pcs", "payload", "sfee", "snonce"])
        x = {"version": lambda: self.pick([0, 128]), "chain": lambda: self.pick([[0, 0, 0, 1], [128, 0, 0, 0]]),
             "anchor": lambda: self.pick([1, 2, 3]), "pcmode": lambda: self.pick([1, 2]), "pcs": self.pcs, "payload": self.payload,
             "sfee": self.u64, "snonce": self.u64}[f]()
        return {"op": "tx.field", "f": f, "x": x}

    def C15(self, n):
        out, total = [], 0
        while total < n:
            k = self.key()
            if self.p(0.4):
                d = self.buildspec()
                d["sender"] = k
                cmds = [{"op": "tx.build", "d": d}]
            else:
                kind = "spon" if self.p(0.3) else "std"
                cmds = [{"op": "tx.make", "d": self.tx(kind, self.one(None, k), self.pick([None, self.one(), self.multi(self.keys(2), 1)]), self.p(0.7))}]
            if self.p(0.4):
                cmds.append({"op": self.pick(["tx.fee", "tx.nonce"]), "x": self.u64()})
            if self.p(0.6):
                cmds += [{"op": "tx.sign", "key": k}]
            else:
                cmds += [{"op": "sg.new"}, {"op": "sg.origin", "key": k}, {"op": "sg.take"}]
            cmds.append({"op": "tx.verify"})
            if self.p(0.15):
                cmds += [{"op": "tx.sign", "key": k}, {"op": "tx.verify"}]
            if self.p(0.35):        # several keys, a sponsor: each signature on its own
                cmds, _, _ = self.signed(self.p(0.5))
                cmds = [y for x in cmds for y in ([x, {"op": "tx.verify"}, {"op": "sg.new"}] if x["op"] == "sg.take" and self.p(0.2) else [x])]
                if self.p(0.5):     # without sessions
                    cmds = [dict(x, op="tx.sign") if x["op"] == "sg.origin" else x for x in cmds if x["op"] not in ("sg.new", "sg.append")]
                cmds.append({"op": "tx.verify"})
            out.append(cmds)
            total += len(cmds)
        return out

    def flip(self, who="origin"):
        return {"op": "tx.flip", "who": who, "i": self.r.randrange(4),
                "byte": self.pick([1, 1, 2, 33, 34, 65, self.r.randrange(1, 66), self.r.randrange(1, 66)]), "bit": 1 << self.r.randrange(8)}

    def signed(self, spon):
        """a fully signed transaction: commands and the keys behind it"""
        ks = self.keys(self.count(self.pick([1, 2, 2, 3]), 18) or 1)
        m = self.r.randrange(1, len(ks) + 1)
        multi = self.p(0.4)
        org = self.multi(ks, m) if multi else self.one(None, ks[0])
        cmds = [{"op": "tx.make", "d": self.tx("spon" if spon else "std", org)}, {"op": "sg.new"}]
        if multi:
            signers = set(self.r.sample(range(len(ks)), m))
            cmds += [{"op": "sg.origin" if i in signers else "sg.append", "key": k} for i, k in enumerate(ks)]
        else:
            cmds.append({"op": "sg.origin", "key": ks[0]})
        cmds.append({"op": "sg.take"})
        if spon:
            sk = self.key()
            s = self.one(None, sk) if self.p(0.7) else self.multi([sk, self.key()], 1)
            cmds += [{"op": "sg.sponsor", "c": s}, {"op": "sg.second", "key": sk}, {"op": "sg.take"}]
        else:
            s = {"k": "def"}
        return cmds, org, s

    def C16(self, n):
        out, total = [], 0
        while total < n:
            spon = self.p(0.4)
            cmds, org, spo = self.signed(spon)
            if spon and self.p(0.4):    # the sponsor's signature may be missing
                i = [x["op"] for x in cmds].index("sg.sponsor")
                cmds = cmds[:i] + ([] if self.p(0.4) else [cmds[i], {"op": "sg.take"}, {"op": "tx.verify"}] + (cmds[i:] if self.p(0.5) else []))
                if [x["op"] for x in cmds].count("sg.sponsor") == 0:
                    spo = {"k": "def"}
            cmds += [{"op": "tx.save"}, {"op": "tx.verify"}]
            strip = lambda c: {"c": {x: c[x] for x in c if x not in ("fee", "nonce")}}
            for _ in range(self.r.randrange(2, 7)):
                k = self.r.randrange(10)
                if k < 3:
                    cmds.append(self.flip("sponsor" if spon and self.p(0.4) else "origin"))
                elif k == 3:
                    cmds.append({"op": self.pick(["tx.fee", "tx.nonce"]), "x": self.u64()})
                elif k < 7:
                    cmds.append(self.edit())
                elif k == 7:        # another signer or hash mode under the same signatures
                    o = json.loads(json.dumps(org))
                    if self.p(0.4):
                        o["mode"] ^= 2
                    elif o["k"] == "one":
                        o["key"] = self.key()
                    elif self.p(0.5):
                        o["keys"][self.r.randrange(len(o["keys"]))] = self.key()
                    elif self.p(0.5):
                        o["keys"].reverse()
                    else:
                        o["req"] = o["req"] % len(o["keys"]) + 1
                    cmds.append({"op": "tx.auth", "kind": "spon" if spon else "std", "origin": strip(o), "sponsor": strip(spo)})
                elif k == 8:        # sponsored turned standard and the other way round
                    cmds.append({"op": "tx.auth", "kind": "std" if spon else "spon", "origin": strip(org),
                                 "sponsor": {"c": self.pick([{"k": "def"}, self.one()])}})
                else:               # no or arbitrary signature bytes
                    o = strip(org) if self.p(0.7) else {"c": {"k": "def"}} if self.p(0.6) else {"c": self.one(2)}
                    sig = L(self.pick([bytes(65), self.raw(65), b"\xff" * 65, b"\0" + self.raw(64), b"\4" + self.raw(64), b"\1" + bytes(64)]))
                    if o["c"]["k"] != "multi":
                        o["sig"] = sig
                    else:
                        o["fields"] = self.pick([[], [{"t": "sig", "b": sig}], [{"t": "sig", "b": sig}] * 2])
                    cmds.append({"op": "tx.auth", "kind": "spon" if spon else "std", "origin": o, "sponsor": strip(spo)})
                if self.p(0.1):
                    cmds.append(self.modify())
                cmds.append({"op": "tx.verify"})
                if self.p(0.8):
                    cmds += [{"op": "tx.load"}, {"op": "tx.verify"}]
            if self.p(0.3):         # signing with another key
                cmds = cmds[:1] + [{"op": "tx.sign", "key": self.key()}, {"op": "tx.verify"}]
            out.append(cmds)
            total += len(cmds)
        return out

    def C17(self, n):
        out, total = [], 0
        while total < n:
            ks = self.keys(self.count(self.pick([1, 2, 2, 3, 3, 4, 5]), 18) or 1 if self.p(0.97) else self.pick([6, 7, 8, 9, 10, 12, 15, 16, 17, 20]))
            if len(ks) > 1 and self.p(0.08):        # a key that counts twice
                ks[self.r.randrange(1, len(ks))] = ks[0]
            m = self.r.randrange(1, len(ks) + 1)
            signers = set(self.r.sample(range(len(ks)), m))
            spon = self.p(0.2)
            plan = [("sg.origin" if i in signers else "sg.append", k) for i, k in enumerate(ks)]
            k = self.r.randrange(10)
            if k == 0:
                plan.pop(self.r.randrange(len(plan)))
            elif k == 1:
                i = self.r.randrange(len(plan))
                plan.insert(i, plan[i])
            elif k == 2:
                self.r.shuffle(plan)
            elif k == 3:
                i = self.r.randrange(len(plan))
                plan[i] = (plan[i][0], self.key())
            elif k == 4:
                i = self.r.randrange(len(plan))
                plan[i] = ({"sg.origin": "sg.append", "sg.append": "sg.origin"}[plan[i][0]], plan[i][1])
            elif k == 5:
                plan.insert(self.r.randrange(len(plan) + 1), (self.pick(["sg.origin", "sg.append"]), self.key()))
            cmds = [{"op": "tx.make", "d": self.tx("spon" if spon else "std", self.multi(ks, m))}, {"op": "sg.new"}]
            over = self.p(0.15)
            if over:                # more signatures than required
                plan = [("sg.origin" if self.p(0.6) else o, key) for o, key in plan]
                cmds.append({"op": "sg.flags", "oversign": False, "overlap": True})
            for o, key in plan:
                cmds.append({"op": o, "key": key})
                if self.p(0.3):     # hand over
                    cmds += [{"op": "sg.take"}, {"op": "tx.verify"}, {"op": "sg.new"}]
                    if over:
                        cmds.append({"op": "sg.flags", "oversign": False, "overlap": True})
            cmds.append({"op": "sg.take"})
            if spon and self.p(0.7):
                sks = self.keys(self.pick([1, 2, 3]))
                sm = self.r.randrange(1, len(sks) + 1)
                cmds.append({"op": "sg.sponsor", "c": self.multi(sks, sm)})
                cmds += [{"op": "sg.second", "key": x} for x in sks]
                cmds.append({"op": "sg.take"})
            cmds.append({"op": "tx.verify"})
            out.append(cmds)
            total += len(cmds)
        return out

    def C18(self, n):
        out, total = [], 0
        while total < n:
            spon = self.p(0.65)
            ks, sks = self.keys(self.pick([1, 1, 2, 3])), self.keys(self.pick([1, 2, 2]))
            org = self.one(None, ks[0]) if self.p(0.5) else self.multi(ks, self.r.randrange(1, len(ks) + 1))
            spo = self.one(None, sks[0]) if self.p(0.5) else self.multi(sks, self.r.randrange(1, len(sks) + 1))
            pre = self.pick([{"k": "def"}, spo, self.one()])
            cmds = [{"op": "tx.make", "d": self.tx("spon" if spon else "std", org, pre)}]
            if self.p(0.5):         # the intended course first, then anything
                cmds.append({"op": "sg.new"})
                if org["k"] == "one":
                    cmds.append({"op": "sg.origin", "key": ks[0]})
                else:
                    cmds += [{"op": "sg.origin", "key": x} if i < org["req"] else {"op": "sg.append", "key": x} for i, x in enumerate(ks)]
                if self.p(0.8):
                    cmds.append({"op": "sg.take"})
                    cmds.append({"op": "sg.sponsor", "c": spo})
            for _ in range(self.r.randrange(3, 10)):
                k = self.r.randrange(19)
                if k == 18:
                    cmds += [{"op": "sg.take"}, {"op": "tx.sign", "key": self.pick(ks)}, {"op": "sg.new"}]
                elif k == 16:
                    cmds += [{"op": "sg.take"}, self.modify(), {"op": "sg.new"}]
                elif k == 17:
                    cmds += [{"op": "sg.take"}, self.pick([{"op": "tx.sponsor", "c": self.pick([spo, self.one()])}, {"op": "tx.reset"}]), {"op": "sg.new"}]
                elif k < 4:
                    cmds.append({"op": "sg.origin", "key": self.pick(ks)})
                elif k < 8:
                    cmds.append({"op": "sg.second", "key": self.pick(sks)})
                elif k < 10:
                    cmds.append({"op": "sg.append", "key": self.pick(ks)})
                elif k == 10:
                    cmds.append({"op": "sg.flags", "oversign": self.p(0.5), "overlap": self.p(0.5)})
                elif k == 11:
                    cmds.append({"op": "sg.new"})
                elif k == 12:
                    cmds.append({"op": "sg.sponsor", "c": self.pick([spo, spo, self.one()])})
                elif k == 13:
                    cmds += [{"op": "sg.take"}, {"op": "tx.verify"}]
                elif k == 14:
                    cmds.append({"op": "tx.verify"})
                else:
                    cmds += [{"op": "sg.take"}, {"op": "sg.sponsor", "c": spo}]
            cmds += [{"op": "sg.take"}, {"op": "tx.verify"}]
            out.append(cmds)
            total += len(cmds)
        return out

    # --- wallets --------------------------------------------------------------------
    def phrase(self):
        import hashlib
        ent = self.pick([self.raw, bytes, lambda n: b"\xff" * n])(self.pick([16, 16, 20, 24, 28, 32, 32]))
        bits = bin(int.from_bytes(b"\1" + ent, "big"))[3:] + bin(hashlib.sha256(ent).digest()[0] | 256)[3:][:len(ent) // 4]
        return [self.words[int(bits[i:i + 11], 2)] for i in range(0, len(bits), 11)]

    def badphrase(self):
        ws = self.phrase()
        k = self.r.randrange(8)
        if k == 0:
            ws[self.r.randrange(len(ws))] = self.pick(self.words)
        elif k == 1:
            ws.pop()
        elif k == 2:
            ws.append(self.pick(self.words))
        elif k == 3:
            ws[self.r.randrange(len(ws))] = self.pick(["stacks", "abandonn", "", "x", "é"])
        elif k == 4:
            i = self.r.randrange(len(ws) - 1)
            ws[i], ws[i + 1] = ws[i + 1], ws[i]
        else:
            ws = self.pick([[], ["abandon"] * 12, ["zoo"] * 24, ["abandon"] * 3, ["abandon"] * 9,
                            [w.upper() for w in ws], [w.capitalize() for w in ws], ws[:1] + [w.upper() for w in ws[1:2]] + ws[2:],
                            [w[:4] for w in ws], ws + ws, ws[:-1] + [ws[-1] + "s"], ["-".join(ws)], [",".join(ws)], ws[::-1]])
            if self.p(0.3):
                i = self.r.randrange(len(ws)) if ws else 0
                ws = ws[:i] + [w.upper() for w in ws[i:i + 1]] + ws[i + 1:]
        return ws

    def C19(self, n):
        out, total = [], 0
        while total < n:
            phs = [self.phrase() for _ in range(2)]
            cmds = []
            for s in self.pick([(1,), (1, 2), (1,)]):
                ws = self.badphrase() if self.p(0.25) else phs[s - 1]
                sep = " " if self.p(0.9) else self.pick(["  ", "\t", "\n", "\r\n", " \t "])
                end = "" if self.p(0.9) else self.pick([" ", "\n", "\t"])
                cmds.append({"op": "w.new", "slot": s, "phrase": T(self.pick(["", end]) + sep.join(ws) + end)})
            idx = [self.pick([0, 0, 1, 2, 5, 255, 256, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31 - 2, self.r.randrange(2 ** 31)]) for _ in range(3)]
            idx[2] = self.count(idx[2], 2 ** 32)
            idx.append((idx[0] ^ self.pick([1, 2 ** 8, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 31])) if self.p(0.7) else 2 ** 32 - 1)
            idx = [L(x.to_bytes(4, "big")) for x in idx]
            for _ in range(self.r.randrange(2, 9)):
                k = self.r.randrange(10)
                s = self.pick([1, 1, 2, 3])
                if k < 6:
                    cmds.append({"op": "w.get", "slot": s, "i": self.pick(idx)})
                elif k == 6:
                    cmds.append({"op": "w.copy", "slot": s, "to": self.pick([x for x in (1, 2, 3) if x != s])})
                elif k < 9:
                    cmds.append({"op": "w.set", "slot": s, "i": self.pick(idx), "to": self.pick([1, 2, 3]), "j": self.pick(idx)})
                else:
                    cmds.append({"op": "w.new", "slot": s, "phrase": T(" ".join(phs[self.r.randrange(2)]))})
            out.append(cmds)
            total += len(cmds)
        return out

    # --- derived structs ----------------------------------------------------------------
    def alike(self, k):
        """a key that looks like k"""
        return self.pick([k.replace("-", "_"), k.replace("_", "-"), k.replace("-", ""), k.upper(), k.lower(), k.swapcase(), k + "-", k + " ", " " + k,
                          k[:-1], k[1:], k + k[-1:], k + "?", k.strip("?!"), "0" + k, k + "-ok", k + "\0", k[::-1], k.split("-")[0]])

    def C20(self, n):
        schemas = json.load(open(HERE + "/vlib/schemas.json"))
        by = dict(schemas)

        def good(f):
            ty = f[1]
            if ty in ("i128", "oi", "ri"):
                x = self.value(0, "int")
            elif ty in ("u128", "ou", "ru"):
                x = self.value(0, "uint")
            elif ty == "bool":
                return {"t": self.pick(["true", "false"])}
            elif ty == "bytes":
                return self.value(0, "buf")
            elif ty == "strs":
                k = self.pick(["ascii", "utf8", "uint", "std", "con"])
                if self.p(0.4):
                    return {"t": "list", "xs": [self.value(1) for _ in range(self.r.randrange(1, 4))]}
                return {"t": "list", "xs": [self.value(0, k) for _ in range(self.r.randrange(0, 4))]}
            elif ty == "sub":
                return {"t": "tuple", "kv": tup(by[f[2]])}
            else:
                x = self.value(0, self.pick(["ascii", "utf8", "std", "con"])) if self.p(0.7) else self.value(1)
            if ty in ("ri", "ru"):
                return {"t": "ok", "x": x}
            if ty in ("oi", "ou", "os"):
                return {"t": "none"} if self.p(0.35) else {"t": "some", "x": x}
            return x

        def tup(fields):
            kv = [{"k": T(f[0]), "x": good(f)} for f in fields]
            for _ in range(self.pick([0, 0, 1, 2])):
                k = self.name() if self.p(0.6) else T(self.alike(self.pick(fields)[0]))
                if k not in [e["k"] for e in kv]:
                    kv.append({"k": k, "x": self.value(1)})
            self.r.shuffle(kv)
            return kv

        def spoil(kv, fields):
            f = self.pick(fields)
            i = [e["k"] for e in kv].index(T(f[0]))
            x = kv[i]["x"]
            k = self.r.randrange(7)
            if f[1] == "sub" and k < 4:
                return spoil(x["kv"], by[f[2]])
            if k == 0:
                kv.pop(i)
            elif k == 1:
                kv[i]["k"] = T(self.alike(bytes(kv[i]["k"]).decode()))
                if len(set(tuple(e["k"]) for e in kv)) < len(kv):
                    kv[i]["k"] = T("unlikely-key")
            elif k == 2:
                kv[i]["x"] = {"t": self.pick(["ok", "err", "some"]), "x": x}
            elif k == 3 and "x" in x:
                kv[i]["x"] = self.pick([x["x"], {"t": "err", "x": x["x"]}, {"t": "ok", "x": x["x"]}, {"t": "some", "x": self.value(1)},
                                        {"t": "some", "x": self.value(0, "int")}, {"t": "some", "x": self.value(0, "uint")}])
            elif k == 4:
                kv[i]["x"] = {"t": "none"}
            elif k == 5 and x["t"] in ("int", "uint"):
                kv[i]["x"] = {"t": "uint" if x["t"] == "int" else "int", "v": x["v"]}
            else:
                kv[i]["x"] = self.value(1)

        out = []
        for _ in range(n):
            ty, fields = self.pick(schemas)
            kv = tup(fields)
            for _ in range(self.pick([0, 1, 1])):
                spoil(kv, fields)
            out.append({"op": "drv", "ty": ty, "kv": kv})
        return self.group(out)

    # --- RPC ------------------------------------------------------------------------------
    SHAPES = {
        "info": [("peer_version", "u64"), ("pox_consensus", "str"), ("burn_block_height", "u64"), ("stable_pox_consensus", "str"),
                 ("stable_burn_block_height", "u64"), ("server_version", "str"), ("network_id", "u32"), ("parent_network_id", "u32"),
                 ("stacks_tip_height", "u64"), ("stacks_tip", "str"), ("stacks_tip_consensus_hash", "str"), ("genesis_chainstate_hash", "str")],
        "account": [("balance", "str"), ("locked", "str"), ("unlock_height", "u64"), ("nonce", "u64"), ("balance_proof", "str"), ("nonce_proof", "str")],
        "fee": [("estimations", "ests")], "broadcast": [("error", "str"), ("reason", "str"), ("txid", "str")],
        "ro": [("okay", "bool"), ("result", "str")], "roerr": [("okay", "bool"), ("cause", "str")]}

    def jtext(self):
        n = self.r.randrange(0, 24) if self.p(0.93) else self.lit(6000, 0.5) or self.pick([100, 127, 128, 255, 256, 300, 512, 1000, 1024, 1025, 4096, 5000])
        return T("".join(c for c in self.utf8(n)))

    def member(self, k, ty):
        if ty == "str":
            return {"k": k, "t": "str", "v": self.jtext()}
        if ty == "bool":
            return {"k": k, "t": "bool", "v": self.p(0.5)}
        if ty == "ests":
            v = [{"fee": T(str(self.num(64))), "rate": T(self.pick(["0.0", "1.0", "1.5", "410.75", "0.1", "123456.5"]))}
                 for _ in range(self.r.randrange(0, 4) if self.p(0.95) else self.pick([8, 16, 40]))]
            if v and self.p(0.2):       # an empty text: the member is left out
                x = self.pick(v)
                x[self.pick(["fee", "rate"])] = T(self.pick(["", "", "null", '"1"', "[]", "{}", "true"]))
            return {"k": k, "t": "ests", "v": v}
        if ty == "null":
            return {"k": k, "t": "null", "v": []}
        return {"k": k, "t": "num", "v": T(str(self.num(64 if ty == "u64" else 32)))}

    def party(self):
        """an address, or a contract's"""
        return self.addr() + (T("." + self.pick("abcXYZ") + "".join(self.pick("aZ09-_") for _ in range(self.r.randrange(0, 8)))) if self.p(0.3) else [])

    def C21(self, n):
        out, recent = [], []
        while len(out) < n:
            call = self.pick(["info", "account", "fee", "broadcast", "ro"])
            seg = lambda: T("".join(self.pick("abcXYZ019-_.~") for _ in range(self.r.randrange(1, 10))).strip(".") or "x")
            e = {"op": "rpc", "call": call, "base": T(self.pick(["", "", "/node", "/a/b"]))}
            if call == "account":
                e["addr"] = self.party() if self.p(0.8) else seg()
            elif call in ("fee", "broadcast"):
                kind = self.pick(["std", "std", "spon"])
                org = self.one() if self.p(0.7) else self.multi(self.keys(2), 1)
                e["d"] = self.tx(kind, org, self.one(), self.p(0.6))
                if self.p(0.05):
                    e["d"]["payload"] = self.payload(True)
            elif call == "ro":
                fn = seg() if self.p(0.5) else T(self.pick("abcXYZ") + "".join(self.pick("aZ09-_!?+<>=/*") for _ in range(self.r.randrange(0, 8))))
                e.update(addr=self.addr(), contract=seg(), fn=fn, sender=self.party() if self.p(0.9) else self.jtext(),
                         args=[self.unrepresentable(1) if self.p(0.03) else self.value(2) for _ in range(self.count(self.pick([0, 1, 2, 3]) if self.p(0.93) else self.pick([4, 7, 8, 9, 15, 16, 17, 20, 33, 64]), 70))])
            recent = recent[-5:] + [e]
            if self.p(0.5):         # the same call again, the answer another one
                e = {k: v for k, v in self.pick(recent).items() if k != "ans"}
                call = e["call"]
            if self.p(0.2):
                e["copy"] = True
            e.pop("store", 0)
            if self.p(0.4):
                e["store"] = self.pick(["text", "value", "clone"])
            a = {"fault": "none", "status": 200, "json": True, "ms": [], "raw": []}
            k = self.r.randrange(12)
            if k == 0:
                a["fault"] = self.pick(["close", "cut", "garbage", "refuse"])
            if self.p(0.3):
                a["status"] = self.pick([400, 401, 403, 404, 409, 429, 500, 502, 503])
            elif self.p(0.2):
                a["status"] = self.pick([201, 202])
            x = self.lit(600)
            if x is not None and x >= 200 and x // 100 != 3 and x not in (204, 205):
                a["status"] = x
            shape = self.SHAPES[call if call != "ro" or self.p(0.5) else "roerr"]
            if call == "broadcast" and a["status"] < 400:
                a["json"] = False
                a["raw"] = T('"' + self.raw(32).hex() + '"' + self.pick(["", "", "", "\n", " "])) if self.p(0.7) else self.jtext()
            elif self.p(0.1):
                a["json"] = False
                a["raw"] = self.pick([self.jtext(), T("{"), T("[]"), T("null"), T(""), T('{"okay":true'), T("Not Found"), T('"x"'), T(" Not Found\n"), T("\t"),
                                     T("\r\nno estimate available "), T("  "), T('{"error": "x"}'), T("0"), T("true"), T("<html></html>")])
            else:
                a["ms"] = [self.member(x, y) for x, y in shape]
                if self.p(0.25) and a["ms"]:
                    i = self.r.randrange(len(a["ms"]))
                    j = self.r.randrange(4)
                    if j == 0:
                        a["ms"].pop(i)
                    elif j == 1:
                        a["ms"][i]["k"] += "_"
                    elif j == 2:
                        a["ms"][i] = self.member(a["ms"][i]["k"], self.pick(["str", "bool", "ests", "u64", "null"]))
                    else:
                        a["ms"][i] = {"k": a["ms"][i]["k"], "t": "num", "v": T(self.pick(["-1", "18446744073709551616", "4294967296", "1.5", "0", "1e3", "-0", "10.0"]))}
                if self.p(0.3):
                    a["ms"].append(self.member("extra", self.pick(["str", "bool", "u64"])))
                self.r.shuffle(a["ms"])
            if self.p(0.3):
                a["via"] = self.pick(["chunked", "eof", "split"])
            e["ans"] = a
            out.append(e)
        return self.group(out, 8)

    # --- flows from a mnemonic to the node -----------------------------------------------------
    def answer(self, call, v=None, wrong=0.06):
        """a node's answer to the call, usually a good one; v replaces the members of these names"""
        a = {"fault": "none", "status": self.pick([200, 200, 200, 202]), "json": True, "ms": [], "raw": []}
        k = self.r.random()
        if call == "broadcast" and k < 0.7:
            a.update(json=False, raw=T('"' + self.raw(32).hex() + '"'))
            return a
        a["ms"] = [self.member(x, y) for x, y in self.SHAPES["roerr" if call == "ro" and k < 0.15 else call]]
        for m in a["ms"]:
            if v and m["k"] in v:
                m.update(v[m["k"]])
        if call == "broadcast" or self.p(wrong):
            a["status"] = self.pick([400, 404, 500])
        elif self.p(wrong):
            a["fault"] = self.pick(["close", "cut", "garbage", "refuse"])
        elif self.p(wrong):
            a.update(json=False, ms=[], raw=self.pick([T("{"), T("null"), T("no"), T("")]))
        elif self.p(wrong) and a["ms"]:
            a["ms"].pop(self.r.randrange(len(a["ms"])))
        self.r.shuffle(a["ms"])
        if self.p(0.2):
            a["via"] = self.pick(["chunked", "eof", "split"])
        return a

    def C23(self, n):
        out, total = [], 0
        while total < n:
            ph = self.phrase()
            cmds = []
            base = lambda: T(self.pick(["", "", "/node"]))
            num = lambda: {"t": "num", "v": T(str(self.pick([self.num(64), self.num(64), self.r.randrange(300)])))}

            def open_():
                ws = self.badphrase() if self.p(0.06) else ph
                i = self.pick([0, 0, 1, 2, 255, 256, 2 ** 31 - 1, self.r.randrange(2 ** 31), self.r.randrange(2 ** 32)])
                cmds.append({"op": "fl.open", "phrase": T(" ".join(ws)), "i": L(i.to_bytes(4, "big"))})

            def ask():
                cmds.append({"op": "fl.ask", "ver": self.pick(VERSIONS), "base": base(), "ans": self.answer("account", {"nonce": num()})})

            def read():
                v = ref.enc(self.value(self.pick([1, 2, 3])))
                h = self.pick(["0x", "0x", "0x", ""]) + v.hex()
                if self.p(0.15):
                    h = self.pick([h[:-1], h + "00", h + "zz", h.upper(), h.replace("0x", "0X"), h[:-2], "", "0x", "(ok true)", "0x0x" + v.hex(), h + " "])
                seg = lambda: T(self.pick("abcXYZ") + "".join(self.pick("aZ09-_") for _ in range(self.r.randrange(0, 8))))
                cmds.append({"op": "fl.read", "ver": self.pick(VERSIONS), "base": base(), "addr": self.addr(), "contract": seg(), "fn": seg(),
                             "args": [self.value(2) for _ in range(self.pick([0, 1, 2]))],
                             "ans": self.answer("ro", {"result": {"t": "str", "v": T(h)}, "okay": {"t": "bool", "v": True}}, 0.05)})

            def build():
                d = {k: v for k, v in self.buildspec().items() if k not in ("sender", "nonce")}
                cmds.append({"op": "fl.build", "d": d})

            def price():
                est = [{"fee": num()["v"], "rate": T(self.pick(["0.0", "1.5", "7.25"]))} for _ in range(self.pick([3, 3, 1, 2, 0]))]
                cmds.append({"op": "fl.price", "base": base(), "ans": self.answer("fee", {"estimations": {"t": "ests", "v": est}})})

            def sign():
                cmds.append({"op": "fl.sign"})

            def send():
                cmds.append({"op": "fl.send", "base": base(), "ans": self.answer("broadcast")})

            open_()
            for _ in range(self.pick([1, 1, 2])):
                course = [ask, build, price, sign, send]
                if self.p(0.5):         # out of order, left out or repeated
                    j = self.r.randrange(5)
                    if self.p(0.5):
                        course.pop(j)
                    else:
                        course.insert(j, self.pick([ask, build, price, sign, send, read, open_]))
                for x in course:
                    x()
            for _ in range(self.pick([0, 1, 1, 2])):
                read()
            out.append(cmds)
            total += len(cmds)
        return out

    # --- signature primitives -----------------------------------------------------------------
    def C22(self, n):
        out = []
        while len(out) < n:
            k = self.r.randrange(10)
            h = L(self.pick([self.raw(32), bytes(32), b"\xff" * 32, self.raw(32)]))
            c = {"hash": h, "typ": self.count(self.pick([4, 5, 4, 5, 0, 255]), 256), "fee": self.u64(), "nonce": self.u64()}
            big = lambda x: x.to_bytes(32, "big")
            rs = lambda: self.pick([self.raw(32), bytes(32), big(1), big(ORDER - 1), big(ORDER), big(ORDER + 1), b"\xff" * 32, big(ORDER // 2), big(ORDER // 2 + 1)])
            if k == 0:
                out.append(dict(c, op="sig.pre"))
            elif k == 1:
                out.append({"op": "sig.post", "hash": h, "sig": L(self.raw(65))})
            elif k == 2:
                out.append({"op": "sig.hash", "b": L(self.raw(self.size()))})
            elif k < 5:
                out.append(dict(c, op="sig.step", key=self.key()))
            elif k == 5:
                out.append(dict(c, op="sig.verify", by=self.key()))
            elif k == 6:
                out.append(dict(c, op="sig.verify", by=self.key(), flip={"byte": self.pick([1, 1, 2, 33, 34, 65, self.r.randrange(1, 66)]), "bit": 1 << self.r.randrange(8)}))
            elif k == 7:
                out.append(dict(c, op="sig.verify", sig=L(bytes([self.pick([0, 1, 2, 3, 4, 27, 255])]) + rs() + rs())))
            elif k == 8:
                out.append({"op": "msg.slice", "b": L(self.raw(self.pick([0, 1, 64, 65, 65, 65, 66, 130])))})
            else:
                out.append({"op": "msg.recov", "b": L(bytes([self.pick([0, 1, 2, 3, 4, 5, 27, 128, 255])]) + rs() + rs())})
        return self.group(out)

    # --- sizes beyond the random ones: two-byte counters and deep nesting -----------------
    def huge(self, prop):
        """large, long and exhaustive sessions"""
        if prop == "C24":
            return self.often()
        t, n = {"t": "true"}, {"t": "none"}
        buf = lambda k: {"t": "buf", "v": L(self.raw(k))}
        asc = lambda k: {"t": "ascii", "s": T("".join(self.pick("abc \"\\") for _ in range(k)))}
        utf = lambda k: {"t": "utf8", "s": T("é" * (k // 2) + "x" * (k % 2))}
        lst = lambda k, x=t, ty="list": {"t": ty, "xs": [x] * k}
        tup = lambda k: {"t": "tuple", "kv": [{"k": T("k%d" % i), "x": self.pick([t, n])} for i in range(k)]}

        def deep(k, kind=None):
            v = self.pick([t, n])
            for _ in range(k):
                w = kind if kind is not None else self.r.randrange(5) if k < 100 else self.r.randrange(2, 5)      # the trace's JSON nests at most 255 deep
                v = ({"t": "list", "xs": [v]} if w == 0 else {"t": "tuple", "kv": [{"k": T("k"), "x": v}]} if w == 1
                     else {"t": ("ok", "err", "some")[w - 2], "x": v})
            return v
        values = [buf(65535), buf(65536), buf(70001), asc(65536), asc(66000), utf(65536), utf(65537), lst(65536), lst(65537, n),
                  lst(65536, n, "args"), lst(300, buf(300)), lst(1000, lst(3)), tup(257), tup(1000), tup(65537), deep(80), deep(130), deep(245), *[deep(70, w) for w in range(5)],
                  {"t": "ok", "x": buf(65537)}, {"t": "tuple", "kv": [{"k": T("a"), "x": lst(65536)}, {"k": T("b"), "x": t}]},
                  lst(2, utf(65540)), {"t": "some", "x": lst(4000, asc(20))}]
        out = []
        if prop == "C01":
            out = [{"op": "cv.enc", "v": v} for v in values]
        elif prop in ("C02", "C03"):
            for v in values:
                b = ref.enc(v)
                if prop == "C02":
                    out += [{"op": "cv.dec", "b": L(b + x), "as": a} for x in (b"", b"\x03\0") for a in ("any", v["t"]) if a != "any" or v["t"] != "args"]
                else:
                    c = bytearray(b)
                    c[3] = (c[3] + 1) % 256
                    out += [{"op": "cv.dec", "b": L(x), "as": v["t"]} for x in (b[:-1], b[:len(b) // 2], bytes(c), b"\x0a" + b[:-1])]
        elif prop == "C04":
            for v in values[:14] + values[15:-3]:
                w = self.near(v)
                out += [{"op": "cv.eq", "v": v, "w": w}, {"op": "cv.clone", "v": v}, {"op": "cv.own", "v": v}, {"op": "cv.cast", "v": v, "to": v["t"], "inner": False}]
        elif prop == "C05":
            out = [{"op": "cv.show", "v": v} for v in values]
        elif prop == "C06":
            for k in (256, 300, 1000):
                kv = tup(k)["kv"]
                pr = [kv[0]["k"], kv[255]["k"], kv[-1]["k"], T("k")]
                out.append([{"op": "tup.new", "slot": 1, "kv": kv, "probes": pr}, {"op": "tup.ins", "slot": 1, "k": kv[255]["k"], "x": buf(3), "probes": pr},
                            {"op": "tup.rem", "slot": 1, "k": kv[254]["k"], "probes": pr}, {"op": "tup.ins", "slot": 1, "k": T("new"), "x": t, "probes": pr},
                            {"op": "tup.set", "slot": 1, "k": kv[-1]["k"], "x": n, "probes": pr}])
            for rounds in (300, 70):        # the same tuple, edited again and again
                kv = tup(40)["kv"]
                cmds = [{"op": "tup.new", "slot": 1, "kv": kv[:3], "probes": []}]
                for i in range(rounds):
                    k = self.pick(kv)["k"]
                    c = {"op": self.pick(["tup.ins", "tup.ins", "tup.rem", "tup.set"]), "slot": 1, "k": k, "probes": [k, self.pick(kv)["k"]]}
                    if c["op"] != "tup.rem":
                        c["x"] = {"t": "uint", "v": L(i.to_bytes(16, "big"))}
                    cmds.append(c)
                out.append(cmds)
            return out
        elif prop == "C07":
            for k in (65535, 65536, 70000):
                b = self.raw(k)
                out += [{"op": "hex.enc", "b": L(b)}, {"op": "hex.dec", "s": T(b.hex())}, {"op": "hex.dec", "s": T(b.hex() + "g0")}]
            signs = [chr(i) for i in range(256)] + list("\u0130\u0131\u0141\u0660\u06f5\u212a\uff10\uff21\ufeff\U00010141")
            out += [{"op": "hex.dec", "s": T(x)} for c in signs for x in (c, "0" + c, c + "0", "a0" + c + "f", c + c)]
        elif prop == "C08":
            for b in (self.raw(1000), self.raw(4097), bytes(300), bytes(300) + self.raw(300), b"\1" + bytes(5000)):
                out += [{"op": "c32.enc", "b": L(b)}, {"op": "c32.dec", "s": T(ref.c32(b))}]
            out += [{"op": "c32.dec", "s": T(x)} for i in range(256) for c in (chr(i), chr(256 + i)) for x in (c, "Z" + c, c + "A", "0" + c + "0", c + c)]
        elif prop == "C09":
            for b in (self.raw(256), self.raw(1000), bytes(300), b"\1" + bytes(2000)):
                out += [{"op": "c32c.enc", "b": L(b), "ver": 22}, {"op": "c32c.dec", "s": T(ref.c32check(b, 22))},
                        {"op": "addr.dec", "s": T(ref.addr(b, 22))}]
            h = self.hash20()
            v = ref.addr(h, 22)
            for c in [chr(i) for i in range(256)] + [chr(256 + ord(x)) for x in v[:4]]:
                j = self.r.randrange(2, len(v))
                out += [{"op": "addr.dec", "s": T(x)} for x in (c + v[1:], v[:1] + c + v[2:], v[:j] + c + v[j + 1:], v[:-1] + c, v + c, c + v, c)]
                out += [{"op": "c32c.dec", "s": T(x)} for x in (c + v[2:], v[1:j] + c + v[j + 1:], v[1:] + c, c)]
        elif prop == "C10":
            for b in (self.raw(300), self.raw(700), bytes(300) + self.raw(20), b"\1" + bytes(300), bytes(1000)):
                out += [{"op": "b58.enc", "b": L(b)}, {"op": "b58.dec", "s": T(ref.b58(b))},
                        {"op": "b58c.enc", "b": L(b), "ver": 0}, {"op": "b58c.dec", "s": T(ref.b58check(b, 5))}]
            v = ref.b58check(self.hash20(), 0)
            for c in [chr(i) for i in range(256)] + [chr(256 + ord(x)) for x in v[:6]]:
                j = self.r.randrange(1, len(v))
                out += [{"op": "b58.dec", "s": T(x)} for x in (c, "2" + c, c + "2", "1" + c + "z", c + c)]
                out += [{"op": "b58c.dec", "s": T(x)} for x in (v[:j] + c + v[j + 1:], v + c, c + v, c, c + v[1:])]
        elif prop == "C11":
            out = [{"op": "hash", "alg": a, "b": L(self.raw(k))} for a in ("sha256", "dsha256", "sha512t256", "hash160") for k in (4096, 65535, 65536, 70001)]
            out += [{"op": "keyshash", "mode": m, "req": q, "keys": self.keys(k)} for m in (1, 3) for q, k in ((1, 17), (15, 15), (16, 16), (17, 17), (9, 32), (40, 40), (100, 128), (175, 175))]
        elif prop == "C12":
            out = [{"op": "pc.enc", "pcs": [self.pc() for _ in range(k)]} for k in (255, 256, 300, 1000)]
            for v in values[:-3]:
                if v["t"] != "args":
                    out.append({"op": "pc.enc", "pcs": [dict(t="nft", code=16, who=self.who(), info=self.info(), id=v), self.pc()]})
        elif prop == "C13":
            for args in ([t] * 256, [n] * 65537, [buf(65536), t], [deep(130)], [tup(300)], [asc(65537), utf(65537)]):
                p = dict(self.payload(), t="call", ver=22, hash=L(self.hash20()), contract=T("c"), fn=T("f"), args=args)
                p = {k: p[k] for k in ("t", "ver", "hash", "contract", "fn", "args")}
                b = ref.enc_payload(p)
                out += [{"op": "pay.enc", "p": p}, {"op": "pay.dec", "b": L(b), "as": "call"}, {"op": "pay.dec", "b": L(b + b"\0"), "as": "any"},
                        {"op": "pay.dec", "b": L(b[:-1]), "as": "call"}]
        elif prop in ("C14", "C15"):
            for args, k in (([t] * 300, 2), ([buf(65536)], 0), ([n] * 65536, 1), ([], 300)):
                key = self.key()
                cmds = [{"op": "tx.build", "d": dict(net="main", sender=key, what="call", address=self.addr(), contract=T("c"), fn=T("f"), args=args,
                                                     pcs=self.pcs(k), fee=self.u64(), nonce=self.u64())}]
                cmds += [{"op": "tx.sign", "key": key}, {"op": "tx.verify"}] if prop == "C15" else [{"op": "tx.nonce", "x": self.u64()}]
                out.append(cmds)
            for rounds in (300, 40):        # the same transaction, changed and signed again and again
                keys = self.keys(2)
                cmds = [{"op": "tx.build", "d": dict(net="test", sender=keys[0], what="call", address=self.addr(), contract=T("c"), fn=T("f"), args=[t],
                                                     pcs=self.pcs(1), fee=self.u64(), nonce=self.u64())}]
                for i in range(rounds):
                    cmds.append({"op": self.pick(["tx.nonce", "tx.fee"]), "x": self.u64() if i % 3 else L(i.to_bytes(8, "big"))})
                    if prop == "C15" and (rounds < 50 or i % 4 == 0):
                        cmds += [{"op": "tx.sign", "key": keys[0 if self.p(0.8) else 1]}, {"op": "tx.verify"}]
                out.append(cmds)
            return out
        elif prop == "C19":
            for k in (70, 300):             # one wallet, asked for many accounts, and for the first ones again
                cmds = [{"op": "w.new", "slot": s, "phrase": T(" ".join(self.phrase()))} for s in (1, 2)]
                idx = list(range(k - 10)) + [self.r.randrange(2 ** 31) for _ in range(10)]
                if self.p(0.5):
                    self.r.shuffle(idx)
                at = lambda i: L(i.to_bytes(4, "big"))
                get = lambda s, i: {"op": "w.get", "slot": s, "i": at(i)}
                cmds += [{"op": "w.set", "slot": 2, "i": at(idx[1]), "to": 1, "j": at(i)} for i in (idx[0], idx[k // 3], 2 ** 31 + 5)]
                cmds += [get(1, i) for i in idx] + [get(1, 2 ** 31 + 5)] + [get(1, i) for i in idx[:5] + idx[-5:]] + [get(2, idx[0]), {"op": "w.copy", "slot": 1, "to": 3}]
                cmds += [get(3, idx[0]), get(3, idx[k // 2]), {"op": "w.set", "slot": 1, "i": at(idx[1]), "to": 2, "j": at(idx[2])}]
                cmds += [get(s, i) for s in (1, 2, 3) for i in idx[:4] + self.r.sample(idx, 6)]
                out.append(cmds)
            return out
        elif prop in ("C16", "C17", "C18"):
            for k, m, spon in ((20, 20, True), (33, 1, False), (40, 17, False), (130, 128, False), (175, 175, False)) if prop == "C17" else ((18, 18, True), (70, 66, False)):
                ks, sks = self.keys(k), self.keys(min(k, 20))
                signers = set(self.r.sample(range(k), m))
                cmds = [{"op": "tx.make", "d": self.tx("spon" if spon else "std", self.multi(ks, m))}, {"op": "sg.new"}]
                for i, key in enumerate(ks):
                    cmds.append({"op": "sg.origin" if i in signers else "sg.append", "key": key})
                    if i in (k // 2, k - 2):
                        cmds += [{"op": "sg.take"}, {"op": "tx.verify"}, {"op": "sg.new"}]
                cmds += [{"op": "sg.origin", "key": ks[0]}, {"op": "sg.take"}]
                if spon:
                    cmds += [{"op": "sg.sponsor", "c": self.multi(sks, len(sks))}] + [{"op": "sg.second", "key": x} for x in sks]
                    cmds += [{"op": "sg.second", "key": sks[0]}, {"op": "sg.origin", "key": ks[0]}, {"op": "sg.append", "key": ks[0]}, {"op": "sg.take"}]
                cmds += [{"op": "tx.verify"}]
                if prop == "C16":
                    cmds += [{"op": "tx.save"}, self.flip("origin"), {"op": "tx.verify"}, {"op": "tx.load"}, {"op": "tx.fee", "x": self.u64()}, {"op": "tx.verify"},
                             {"op": "tx.load"}, {"op": "tx.verify"}]
                out.append(cmds)
            return out
        elif prop == "C20":
            by = dict(json.load(open(HERE + "/vlib/schemas.json")))
            for ty, fields in by.items():
                if len(fields) == 1 and fields[0][1] in ("strs", "bytes", "str"):
                    x = {"strs": lst(300, asc(5)), "bytes": buf(65537), "str": asc(65537)}[fields[0][1]]
                    out.append({"op": "drv", "ty": ty, "kv": [{"k": T(fields[0][0]), "x": x}]})
        elif prop == "C21":
            for c in ({"call": "broadcast", "d": dict(self.tx(), payload={"t": "call", "ver": 22, "hash": L(self.hash20()), "contract": T("c"), "fn": T("f"),
                                                                           "args": [buf(65537), t]})},
                      {"call": "fee", "d": dict(self.tx(), payload={"t": "call", "ver": 22, "hash": L(self.hash20()), "contract": T("c"), "fn": T("f"),
                                                                     "args": [t] * 300 + [buf(3000)]})},
                      {"call": "ro", "addr": self.addr(), "contract": T("c"), "fn": T("f"), "sender": self.addr(), "args": [t] * 300 + [buf(3000)]}):
                a = {"fault": "none", "status": 200, "json": True, "ms": [self.member(x, y) for x, y in self.SHAPES[c["call"]]], "raw": []}
                if c["call"] == "fee":
                    a["ms"][0]["v"] = [{"fee": T(str(i)), "rate": T("1.5")} for i in range(300)]
                elif c["call"] == "ro":
                    a["ms"][1]["v"] = T("0x0b" * 20000)
                else:
                    a.update(json=False, ms=[], raw=T("t" * 70000))
                out.append(dict(c, op="rpc", base=T(""), ans=a))
            many = [dict(c, base=T("")) for s in self.C21(300) for c in s]       # one client, asked again and again
            return [[c] for c in out] + [many]
        elif prop == "C23":
            return [[c for s in self.C23(300) for c in s]]
        elif prop == "C22":
            out = [{"op": "sig.hash", "b": L(self.raw(k))} for k in (4096, 65536, 70001)]
        return [[c] for c in out[:60]] + [out[i:i + 40] for i in range(60, len(out), 40)]

    # --- several threads --------------------------------------------------------------------
    def C24(self, n, ms=250):
        """blocks of sessions that threads execute at the same time, again and again"""
        kinds = [f"C{i:02}" for i in range(1, 24)]
        small = lambda s: len(json.dumps(s)) < 12000 and not any(c.get("ans", {}).get("fault") in ("refuse", "cut") for c in s)
        order = []
        out = []
        for _ in range(max(1, n // 100)):
            ss = []
            if self.p(0.75):                # the same functions
                if not order:
                    order = self.r.sample(kinds, len(kinds))
                kind = order.pop()
                ss = [s[:self.pick([2, 4, 8])] for s in getattr(self, kind)(60 if kind != "C03" else 30) if small(s)][:6]
            else:
                for kind in self.r.sample(kinds, 4):
                    ss += [s[:8] for s in getattr(self, kind)(20) if small(s)][:2]
            ss = self.relatives(ss, 0.5)
            self.r.shuffle(ss)
            if ss:
                out.append({"hammer": ms, "threads": self.pick([2, 4, 8, 8]), "sessions": ss})
        return out

    def often(self, times=66000, ms=3000):
        """small sessions of every kind, repeated more often than 16 bits can count"""
        best = {}
        for kind in [f"C{i:02}" for i in range(1, 24)]:
            for x in getattr(self, kind)(120 if kind != "C03" else 30):
                if not x or any(c.get("ans", {}).get("fault") in ("refuse", "cut") for c in x):
                    continue
                one = not x[0]["op"].startswith(("tup.", "tx.", "sg.", "w.", "fl."))
                for y in ([[c] for c in x] if one else [x[:6]]):
                    key = (y[0]["op"], y[0].get("alg"), y[0].get("mode"), y[0].get("call")) if one else (y[0]["op"], kind)
                    size = len(json.dumps(y))
                    if size > 60 and size < 3000:
                        best.setdefault(key, []).append((abs(size - 400), len(best), y))
        out = []
        for v in best.values():
            v.sort(key=lambda x: x[0])
            out.append(self.pick(v[:3])[2])
        self.r.shuffle(out)
        return [{"repeat": times, "ms": ms, "sessions": out}]

    # --- every value of one dimension, the others at random --------------------------------
    def powers(self, bits):
        return sorted({x % (1 << bits) for k in range(bits + 1) for d in (-1, 0, 1) for x in ((1 << k) + d,)})

    def sweep(self, prop):
        num = lambda t, x: {"t": t, "v": L((x % (1 << 128)).to_bytes(16, "big"))}
        u64 = lambda x: L(x.to_bytes(8, "big"))
        asc = lambda s: {"t": "ascii", "s": T(s)}
        utf = lambda s: {"t": "utf8", "s": T(s)}
        buf = lambda b: {"t": "buf", "v": L(b)}
        word = lambda n: "".join(self.pick("abcxyzABC019-") for _ in range(n))
        std = lambda h: {"t": "std", "a": T(ref.addr(h, self.pick(VERSIONS)))}
        t = {"t": "true"}
        chars = [chr(c) for c in range(128)]
        wide = [chr(c) for c in range(128, 0x180)] + [chr(c + d) for c in (0x7ff, 0xfff, 0x2000, 0x2028, 0x3000, 0xd7fe, 0xe001, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10fffe)
                                                     for d in (-1, 0, 1)]
        hashes = [bytes([b]) + self.raw(19) for b in range(256)] + [self.raw(19) + bytes([b]) for b in range(256)]
        out = []
        if prop in ("C01", "C02", "C04", "C05"):
            vs = [num(ty, x) for ty in ("int", "uint") for x in self.powers(128)]
            vs += [asc(x) for c in chars for x in (c, "a" + c + "b", c + c)]
            vs += [utf(x) for c in chars + wide for x in (c, "é" + c + "b")]
            vs += [buf(bytes(x)) for b in range(256) for x in ([b], [7, b], [b, 0])]
            for k in range(300):
                vs += [buf(self.raw(k)), asc(word(k)), utf("é" * (k // 2) + "x" * (k % 2))]
            for k in range(129):
                vs += [{"t": "con", "a": self.addr(), "n": T(word(k))}, {"t": "tuple", "kv": [{"k": T(word(k)), "x": t}]}]
            for k in list(range(70)) + [127, 128, 129, 254, 255, 256, 257]:
                vs += [{"t": "list", "xs": [num("uint", i) for i in range(k)]}, {"t": "tuple", "kv": [{"k": T("k%d" % i), "x": t} for i in range(k)]}]
            vs += [std(h) for h in hashes]
            if prop == "C01":
                out = [{"op": "cv.enc", "v": v} for v in vs]
            elif prop == "C02":
                out = [{"op": "cv.dec", "b": L(ref.enc(v) + (self.raw(2) if self.p(0.3) else b"")), "as": "any" if self.p(0.5) else v["t"]} for v in vs]
            elif prop == "C04":
                out = [{"op": "cv.eq", "v": v, "w": self.near(v) if self.p(0.7) else v} if self.p(0.6) else {"op": "cv.own", "v": v} for v in vs]
            else:
                out = [{"op": "cv.show", "v": v} for v in vs]
        elif prop == "C03":
            kinds = ["any", "int", "uint", "buf", "true", "false", "std", "con", "ok", "err", "none", "some", "list", "tuple", "ascii", "utf8"]
            for b in range(256):
                for a in kinds:
                    out.append({"op": "cv.dec", "b": L(bytes([b]) + self.raw(self.r.randrange(0, 24))), "as": a})
                out += [{"op": "cv.dec", "b": L(bytes(x)), "as": a} for x, a in (([13, 0, 0, 0, 1, b], "ascii"), ([14, 0, 0, 0, 1, b], "utf8"), ([14, 0, 0, 0, 2, 0xc3, b], "utf8"),
                                                                                  ([14, 0, 0, 0, 3, 0xe0, b, 0x80], "utf8"), ([14, 0, 0, 0, 4, 0xf4, b, 0x80, 0x80], "utf8"),
                                                                                  ([5, b] + [3] * 20, "std"), ([12, 0, 0, 0, 1, b] + [97] * 130 + [3], "tuple"),
                                                                                  ([6, 22] + [3] * 20 + [b] + [97] * 130, "con"), ([11, 0, 0, 0, 1, b], "list"), ([2, 0, 0, 0, b] + [1] * 130, "buf"))]
        elif prop == "C11":
            for alg in ("sha256", "dsha256", "sha512t256", "hash160"):
                out += [{"op": "hash", "alg": alg, "b": L(self.raw(k))} for k in range(300)]
            out += [{"op": "keyhash", "mode": m, "key": L((1 << k).to_bytes(32, "big"))} for m in (0, 2) for k in range(255)]
            for k in range(1, 33):
                ks = self.keys(k)
                out += [{"op": "keyshash", "mode": m, "req": q, "keys": ks} for m in (1, 3) for q in sorted({1, k, (k + 1) // 2, self.r.randrange(1, k + 1)})]
        elif prop == "C12":
            of = lambda ty, **k: dict({"t": ty, "code": self.pick(CODES), "who": self.who()}, **k)
            out = [of(ty, amount=u64(x), **({} if ty == "stx" else {"info": self.info()})) for ty in ("stx", "ft") for x in self.powers(64)]
            for k in range(129):
                out += [of(ty, info={"a": self.addr(), "n": T(word(k if i else 5)), "s": T(word(5 if i else k))}, **({"amount": self.u64()} if ty == "ft" else {"id": num("uint", k)}))
                        for ty in ("ft", "nft") for i in (0, 1)]
                out.append(dict(of("stx", amount=self.u64()), who={"t": "con", "a": self.addr(), "n": T(word(k))}))
            out += [dict(of("stx", amount=self.u64()), who=std(h)) for h in hashes]
            out = [{"op": "pc.enc", "pcs": [c] + ([self.pc()] if self.p(0.2) else [])} for c in out] + [{"op": "pc.enc", "pcs": [self.pc() for _ in range(k)]} for k in range(70)]
        elif prop == "C13":
            tr = lambda **k: dict({"t": "transfer", "to": self.who(), "amount": self.u64(), "memo": self.memo()}, **k)
            call = lambda **k: dict({"t": "call", "ver": self.pick(VERSIONS), "hash": L(self.hash20()), "contract": T("c"), "fn": T("f"), "args": [t]}, **k)
            ps = [tr(amount=u64(x)) for x in self.powers(64)]
            ps += [tr(memo=T(x)) for c in chars + wide for x in (c, "a" + c, c + "a", c * (34 // len(c.encode())))]
            ps += [tr(memo=T(word(k))) for k in range(35)] + [tr(to=std(h)) for h in hashes]
            for k in range(129):
                ps += [call(contract=T(word(k))), call(fn=T(word(k))), tr(to={"t": "con", "a": self.addr(), "n": T(word(k))})]
            ps += [call(args=[num("int", i) for i in range(k)]) for k in range(70)] + [call(hash=L(h)) for h in hashes]
            for p in ps:
                if self.p(0.5):
                    out.append({"op": "pay.enc", "p": p})
                else:
                    b = ref.enc_payload(p)
                    out.append({"op": "pay.dec", "b": L(b + (self.raw(3) if self.p(0.3) else b"")), "as": "any" if self.p(0.4) else p["t"]})
        elif prop in ("C14", "C15"):
            sessions = []
            for net in ("main", "test"):
                key = self.key()
                cmds = [{"op": "tx.build", "d": dict(net=net, sender=key, what="call", address=self.addr(), contract=T("c"), fn=T("f"), args=[t],
                                                     pcs=self.pcs(1), fee=self.u64(), nonce=self.u64())}]
                for x in self.powers(64):
                    cmds.append({"op": self.pick(["tx.fee", "tx.nonce"]), "x": u64(x)})
                    if prop == "C15":
                        cmds += [{"op": "tx.sign", "key": key}, {"op": "tx.verify"}]
                sessions.append(cmds)
            for x in self.powers(64):
                d = dict(net=self.pick(["main", "test"]), sender=self.key(), what="call", address=self.addr(), contract=T("c"), fn=T("f"), args=[], pcs=[],
                         fee=u64(x) if self.p(0.5) else self.u64(), nonce=u64(x))
                sessions.append([{"op": "tx.build", "d": d}] + ([{"op": "tx.sign", "key": d["sender"]}, {"op": "tx.verify"}] if prop == "C15" else []))
            return sessions
        elif prop == "C20":
            vals = {"int": [num("int", x) for x in self.powers(128)], "uint": [num("uint", x) for x in self.powers(128)],
                    "str": [asc(x) for c in chars for x in (c, "a" + c)] + [utf(c) for c in chars + wide], "bytes": [buf(bytes([b])) for b in range(256)]}
            for ty, fields in json.load(open(HERE + "/vlib/schemas.json")):
                if len(fields) == 1:
                    k = {"i128": "int", "u128": "uint"}.get(fields[0][1], fields[0][1])
                    out += [{"op": "drv", "ty": ty, "kv": [{"k": T(fields[0][0]), "x": x}]} for x in vals.get(k, [])]
        return [out[i:i + 40] for i in range(0, len(out), 40)]
