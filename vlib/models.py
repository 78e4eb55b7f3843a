"""The bounded models of each property, and the recorded findings' inputs."""

# property -> tier -> [{module, constants, invariants, properties?, history?, cap?}]; history: a model of
# histories (hist, View and EmitStep), of which at most cap are executed, chosen by the seed
MODELS = {}


def text(codec, quick, thorough):
    return [[{"module": "MCText", "constants": {"Codec": f'"{codec}"', "MaxBytes": b, "MaxChars": c, "MaxOdd": o},
              "invariants": ["RoundTrip", "Canonical", "Refuses", "Emitted"]}] for b, c, o in (quick, thorough)]


def check(codec, quick, thorough):
    return [[{"module": "MCCheck", "constants": {"Codec": f'"{codec}"', "Data": d, "Chars": c, "Damages": n},
              "invariants": ["RoundTrip", "Detected", "Unambiguous", "Emitted"]}] for d, c, n in (quick, thorough)]


def both(prop, *pairs):
    MODELS[prop] = {"quick": [m for p in pairs for m in p[0]], "thorough": [m for p in pairs for m in p[1]]}


def value(calls, broken, quick, thorough):
    inv = ["RoundTrip", "PrefixFree", "Representable", "Balanced", "Emitted"]
    return [[{"module": "MCValue", "constants": {"MaxSteps": s, "MaxStack": k, "Broken": "TRUE" if broken else "FALSE",
              "Calls": "{" + ", ".join(f'"{c}"' for c in calls) + "}"}, "invariants": inv}] for s, k in (quick, thorough)]


def bytestrings(what, quick, thorough):
    return [[{"module": "MCBytes", "constants": {"What": f'"{what}"', "MaxParts": n, "Wide": w},
              "invariants": ["Canonical", "Agree", "Emitted"], "view": "View"}] for n, w in (quick, thorough)]


def pairs():
    return [[{"module": "MCPair", "constants": {"Depth": d}, "invariants": ["EqualEncodings", "AllFine", "Emitted"]}] for d in (1, 2)]


def signer(quick, thorough):
    inv = ["OnlyOwner", "SingleWorks", "MultiWorks"]
    return [[{"module": "MCSigner", "constants": {"Setup": f'"{s}"', "Allowed": "{" + ", ".join(f'"{c}"' for c in a.split()) + "}",
              "MaxOps": n, "MaxTampers": t, "MaxExtra": x, "Ends": e}, "invariants": inv, "properties": ["Guards", "SponsorStart"],
              "history": True, "cap": c}] for (s, a, n, t, x, e), c in ((quick, 2000), (thorough, 40000))]


both("C15", signer(("single", "sign new money", 4, 2, 9, "FALSE"), ("single", "sign new money edit", 6, 2, 9, "FALSE")))
both("C16", signer(("owners", "sign edit money flip owner save", 3, 2, 9, "FALSE"),
                   ("owners", "sign new sponsor second edit money flip owner save", 5, 2, 9, "FALSE")))
both("C17", signer(("multi", "new append foreign", 6, 0, 1, "TRUE"), ("multi3", "new append foreign sponsor second", 8, 0, 1, "TRUE")))
both("C18", signer(("session", "new append sponsor second flags", 6, 0, 1, "TRUE"),
                   ("session", "new append sponsor second flags multisponsor foreign", 8, 0, 1, "TRUE")),
     signer(("handed", "new append sponsor second flags multisponsor money modify setsponsor reset", 4, 1, 1, "TRUE"),
            ("handed", "new append sponsor second flags multisponsor money edit flip modify setsponsor reset", 5, 1, 1, "TRUE")))
both("C01", value(["enc"], True, (3, 2), (4, 3)))
both("C02", value(["dec"], False, (3, 2), (4, 3)))
both("C03", bytestrings("cv", (3, "FALSE"), (4, "TRUE")))
both("C04", value(["clone", "own", "cast"], False, (3, 1), (3, 2)), pairs())
both("C05", value(["show"], False, (3, 2), (4, 3)))
both("C07", text("hex", (4, 4, 2), (5, 5, 3)))
both("C08", text("c32", (4, 4, 2), (6, 5, 3)))
both("C09", check("c32c", (6, 4, 1), (8, 32, 1)), check("addr", (3, 3, 1), (7, 32, 1)))
both("C10", text("b58", (4, 4, 2), (6, 5, 3)), check("b58c", (5, 3, 1), (8, 58, 1)))


def model(module, invs, quick, thorough, props="", history=False, cap=(0, 0)):
    out = []
    for consts, c in ((quick, cap[0]), (thorough, cap[1])):
        m = {"module": module, "constants": consts, "invariants": invs.split(), "properties": props.split()}
        if history:
            m["history"] = True
        if c:
            m["cap"] = c
        out.append([m])
    return out


both("C06", model("MCTuple", "Unique IsMap Ordered", {"MaxOps": 4, "MaxKeys": 3, "Slots": 2}, {"MaxOps": 6, "MaxKeys": 3, "Slots": 3},
                  "Local", True, (2500, 40000)))
both("C11", model("MCKeys", "Readable Separate Emitted", {"MaxKeys": 4, "Pool": 3, "MaxLen": 140}, {"MaxKeys": 6, "Pool": 4, "MaxLen": 600}))
both("C12", model("MCPostCond", "Readable Refuses Emitted", {"MaxLen": 4, "Codes0": "{1, 5, 16, 17}"}, {"MaxLen": 6, "Codes0": "{1, 2, 3, 4, 5, 16, 17}"}))
both("C13", model("MCPayload", "RoundTrip PrefixFree Refuses Emitted", {"MaxArgs": 2, "Cuts": 9}, {"MaxArgs": 4, "Cuts": 60}),
     bytestrings("pay", (3, "FALSE"), (4, "FALSE")))
both("C14", model("MCTx", "Readable", {"MaxOps": 2, "Few": "TRUE"}, {"MaxOps": 4, "Few": "FALSE"}, "Frame", True, (2500, 40000)))
both("C19", model("MCWallet", "Same", {"MaxOps": 5, "MaxSlots": 2, "Indexes": "<- IdxFew"}, {"MaxOps": 6, "MaxSlots": 3, "Indexes": "<- IdxMore"},
                  "Asking", True, (400, 6000)))
both("C20", model("MCDerive", "Exact OrderFree OnePerField Emitted", {"Faults": 1}, {"Faults": 2}))
both("C21", model("MCRpc", "NoFalseSuccess Understood OrderFree Emitted", {"Statuses": "{200, 400, 500}", "Damages": 1},
                  {"Statuses": "{200, 201, 202, 204, 400, 401, 403, 404, 409, 429, 500, 502, 503}", "Damages": 2}))
both("C22", model("MCSig", "Sensitive Malformed Emitted", {"Bits": "{1, 128}", "Ids": "{0, 1, 2, 3, 4, 27, 255}"},
                  {"Bits": "{1, 2, 4, 8, 16, 32, 64, 128}", "Ids": "0..255"}))
both("C23", model("MCFlow", "Own Carries Told Fresh", {"MaxOps": 7, "Allowed": '{"ask", "build", "price", "sign", "send", "read"}'},
                  {"MaxOps": 9, "Allowed": '{"open", "ask", "build", "price", "sign", "send", "read"}'}, "Quiet", True, (600, 12000)))
both("C24", model("MCThreads", "Alone Finished", {"Threads": 2, "Length": 3, "Programs": 7}, {"Threads": 2, "Length": 4, "Programs": 7},
                  "Own", True, (1000, 8000)),
     model("MCThreads", "Alone Finished", {"Threads": 3, "Length": 2, "Programs": 3}, {"Threads": 3, "Length": 2, "Programs": 7},
           "Own", True, (500, 8000)))
# property -> tier -> number of random commands (per round)
RANDOM = {}

FINDINGS = {
    "deep-nesting": lambda: {"op": "cv.dec", "as": "any", "b": [10] * 200000},
}


def cfg(m):
    s = "SPECIFICATION Spec\n"
    for k, v in m["constants"].items():
        s += f"CONSTANT {k} = {v}\n" if not str(v).startswith("<-") else f"CONSTANT {k} {v}\n"
    for i in m["invariants"]:
        s += f"INVARIANT {i}\n"
    for i in m.get("properties", []):
        s += f"PROPERTY {i}\n"
    if m.get("view"):
        s += f"VIEW {m['view']}\n"
    if m.get("history"):
        s += "VIEW View\nACTION_CONSTRAINT EmitStep\n"
    return s
