"""Literals of the library's source, for the generators: numbers and texts the code mentions make good inputs. Those not
in literals.json (the tree this was made for) are tried. They only choose inputs; they never decide anything."""
import collections
import hashlib
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = ("../repo/stacks/src", "../repo/stacks_derive/src")
TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|b?r\#*".*?"\#*|b?"(?:\\.|[^"\\])*"|b?'(?:\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)|[^'\\])'|\b[0-9][0-9a-zA-Z_]*\b""", re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}


def unescape(s):
    return re.sub(r"\\(?:u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|(.))",
                  lambda m: chr(int(m[1] or m[2], 16)) if m[1] or m[2] else ESC.get(m[3], m[3]), s)


def number(t):
    t = re.sub(r"_?([ui](8|16|32|64|128|size)|f32|f64)$", "", t).replace("_", "")
    try:
        return int(t, 0) if not re.fullmatch(r"0[0-9]+", t) else int(t)
    except ValueError:
        return None


def scan():
    """file -> (numbers, texts), each a Counter"""
    out = {}
    for root in ROOTS:
        top = os.path.join(HERE, root)
        for d, _, fs in os.walk(top):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                src = open(os.path.join(d, f), errors="replace").read()
                ints, strs = collections.Counter(), collections.Counter()
                for m in TOKEN.finditer(src):
                    t = m[0]
                    if t.startswith("/"):
                        continue
                    if t[0].isdigit():
                        x = number(t)
                        if x is not None and x < 1 << 128:
                            ints[x] += 1
                            if x < 128 and src[:m.start()].rstrip().endswith("<<"):
                                ints[1 << x] += 1
                    else:
                        q = min(i for i in (t.find('"'), t.find("'")) if i >= 0)
                        try:
                            s = unescape(t[q + 1:].rstrip("#")[:-1])
                            s.encode()
                        except (ValueError, OverflowError):     # a raw string that looks like an escape
                            continue
                        if 0 < len(s) <= 64:
                            strs[s] += 1
                out[root[8:] + os.path.join(d, f)[len(top):]] = (ints, strs)
    return out


def fingerprint():
    """of the source without its comments and layout"""
    h = hashlib.sha256()
    for root in ROOTS:
        for d, ds, fs in sorted(os.walk(os.path.join(HERE, root))):
            for f in sorted(fs):
                src = open(os.path.join(d, f), errors="replace").read()
                src = TOKEN.sub(lambda m: "" if m[0].startswith(("//", "/*")) else m[0], src)
                h.update((f + "".join(src.split()) + "\0").encode())
    return h.hexdigest()


def changed():
    return fingerprint() != json.load(open(HERE + "/vlib/literals.json"))["fingerprint"]


_cache = None


def literals():
    """numbers and texts of which there are more than in the tree this was made for"""
    global _cache
    if _cache is None:
        base = json.load(open(HERE + "/vlib/literals.json"))
        ints, strs = set(), set()
        for f, (i, s) in scan().items():
            b = base.get(f, {"ints": {}, "strs": {}})
            ints |= {x for x in i if i[x] > b["ints"].get(str(x), 0)}
            strs |= {x for x in s if s[x] > b["strs"].get(x, 0)}
        _cache = (sorted(ints), sorted(strs))
    return _cache
