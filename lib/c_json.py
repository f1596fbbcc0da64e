"""C24: loading and dumping JSON."""
import json, math, struct
import vt, machine
from c_store import execute, codes

KEYS = ["a", "b", "ab", "aa", "z", "", "0", "10", "9", "key with space", "\u00e4", "\u20ac", "\U0001f600", "q\"uote", "back\\slash", "nul\0byte", "line\nbreak", "_multimap", "$sum", "$val", "x" * 200, "any", "/", "a.b"]
TEXTS = ["", "a", "hello", "\u00e4\u00f6\u20ac\U0001f600", "nul\0byte", "\0", "\x01\x1f\x7f", "\"\\/\b\f\n\r\t", "x" * 300, "'", "null", "1", "\ud7ff\ue000\uffff", "\U0010ffff", "a\0"]
INTS = [0, 1, -1, 255, 256, 32767, -32768, 32768, 65535, 65536, -65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 2**63 - 2, -2**63 + 1]
BIGS = [2**63, 2**63 + 1, 2**63 + 1025, 2**64 - 1, 2**64, 2**64 + 1, -2**63 - 1, -2**64, 10**25, -10**25, 123456789012345678901234567890]
DBLS = [0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e15, 1e16, 1e17, 1e22, 1e23, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4.35, 0.3, 2.0**53, 2.0**63, -2.0**63, 2.0**64, 123456.789, 1e-10, 1/3]


def number(r):
    x = r.random()
    if x < 0.35: return str(r.choice(INTS) if r.random() < 0.7 else r.randint(-2**63, 2**63 - 1) >> r.randint(0, 62))
    if x < 0.45: return str(r.choice(BIGS) if r.random() < 0.6 else r.randint(-10**30, 10**30))
    if x < 0.7: return repr(r.choice(DBLS))
    if x < 0.8:
        d = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        return repr(d) if math.isfinite(d) else "1e400"
    digits = "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 17, 18, 19, 20, 25, 40])))
    digits = digits.lstrip("0") or "0"
    s = r.choice(["", "", "-"]) + digits
    if r.random() < 0.6: s += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 6, 17, 30])))
    if r.random() < 0.5: s += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 5, 10, 22, 23, 100, 290, 307]))
    if r.random() < 0.1: s = r.choice(["-0", "-0.0", "0e5", "0E-400", "1e-330", "1e309", "1e400", "9007199254740993", "9007199254740993.0", "9007199254740992.5", "0.5e-323"])
    return s


def text(r, s):
    """A JSON string for s in one of many spellings."""
    o = '"'
    for c in s:
        n = ord(c)
        short = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(n)
        if c in '"\\': o += "\\" + c if r.random() < 0.8 else "\\u%04x" % n
        elif n < 32: o += short if short and r.random() < 0.6 else "\\u%04X" % n
        elif c == "/" and r.random() < 0.5: o += "\\/"
        elif r.random() < 0.1 or 0xd800 <= n < 0xe000:
            o += "\\u%04x" % n if n < 65536 else "\\u%04x\\u%04X" % (0xd800 + (n - 65536 >> 10), 0xdc00 + (n - 65536 & 1023))
        else: o += c
    return o + '"'


def document(r, depth, keys):
    x = r.random()
    sp = lambda: r.choice(["", "", "", " ", "\n", "\t \r"])
    if depth > 0 and x < 0.35:
        n = r.choice([0, 1, 2, 3, 4, 8])
        ks = r.sample(keys, min(n, len(keys)))
        return "{" + sp() + ",".join(sp() + text(r, k) + sp() + ":" + sp() + document(r, depth - 1, keys) + sp() for k in ks) + "}"
    if depth > 0 and x < 0.65:
        n = r.choice([0, 1, 2, 3, 5, 12])
        return "[" + sp() + ",".join(sp() + document(r, depth - 1, keys) + sp() for _ in range(n)) + "]"
    y = r.random()
    if y < 0.5: return number(r)
    if y < 0.8: return text(r, r.choice(TEXTS))
    return r.choice(["null", "true", "false"])


def mutated(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(b) + 1)
        x = r.random()
        c = r.choice(b'{}[]:,"\\0123456789.eE+-tfn \x1f\x80\xc3\xe2\xff' + bytes(b or b" "))
        if x < 0.35: b[i:i] = bytes([c])
        elif x < 0.7: del b[i:i + r.choice([1, 1, 2, 5])]
        elif i < len(b): b[i] = c
    return bytes(b).replace(b"\0", b" ")


def tree(r, depth):
    """A tree of a model; names may repeat."""
    x = r.random()
    t = {"p": [], "ks": [], "vs": []}
    if depth > 0 and x < 0.5:
        names = r.sample(["a", "b", "c", "d", "_multimap", "\u00e4", "n\0"], r.choice([1, 2, 4]))
        n = r.choice([0, 1, 2, 3, 5])
        ks = [r.choice(names) for _ in range(n)] if r.random() < 0.6 else r.sample(names, min(n, len(names)))
        if "_multimap" in ks and len(set(ks)) < len(ks): ks = [k for k in ks if k != "_multimap"]
        return dict(t, t="object", ks=[codes(k) for k in ks], vs=[tree(r, depth - 1) for _ in ks])
    if depth > 0 and x < 0.7:
        return dict(t, t="array", vs=[tree(r, depth - 1) for _ in range(r.choice([0, 1, 2, 4]))])
    y = r.random()
    if y < 0.3:
        return dict(t, t="int", p=list((r.choice(INTS) & (2**64 - 1)).to_bytes(8, "little")))
    if y < 0.5:
        d = r.choice(DBLS)
        m, e = math.frexp(abs(d))
        m, e = int(m * 2**53), e - 53
        while m and not m & 1: m, e = m >> 1, e + 1
        return dict(t, t="float", p=[int(math.copysign(1, d) < 0), list(m.to_bytes((m.bit_length() + 7) // 8, "little")), e if m else 0])
    if y < 0.75: return dict(t, t="string", p=codes(r.choice(TEXTS)))
    if y < 0.9: return dict(t, t="bool", p=[r.randrange(2)])
    return dict(t, t="null")


def run(ck):
    exe = vt.build("json", ["json.cpp"], vt.repo_sources(), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
    r = ck.rng
    cases, load = [], lambda f, b: {"form": f, "doc": list(b)}
    counts = {}
    for kind, deeper, n in (("Struct", "8", 6000), ("Number", "7", 3000), ("String", "5", 6000)):
        ts = machine.emitted(ck, "MCJson", "MCJson%s.cfg" % (kind + (deeper if ck.thorough else "")), timeout=2000)
        counts[kind] = len(ts)
        ts = r.sample(ts, min(len(ts), ck.pick(n, 60000)))
        group = []
        for t in ts:        # several documents each, so that the roots of a model add up
            group.append(load(r.randrange(3), t + [34] if kind == "String" and r.random() < 0.8 else t))
            if len(group) == 6:
                cases.append({"ops": group})
                group = []
        if group: cases.append({"ops": group})
    ck.note("enumerated texts", counts)
    for _ in range(ck.pick(1500, 20000)):
        keys = r.sample(KEYS, r.randint(1, len(KEYS))) if r.random() < 0.9 else ["a", "A", "b", "B", "$SUM", "\u00e4", "\u00c4"]
        ops = []
        for _ in range(r.choice([1, 2, 3, 5])):
            x = r.random()
            if x < 0.15:
                ops.append({"form": 3, "tree": tree(r, r.choice([1, 2, 3]))})
                continue
            b = document(r, r.choice([0, 1, 2, 3, 4]), keys).encode("utf-8", "surrogatepass")
            if len(b) > 3000: b = document(r, 1, keys).encode("utf-8", "surrogatepass")
            if x < 0.35: b = mutated(r, b)
            ops.append(load(r.randrange(3), b))
        cases.append({"ops": ops})
    for n in (60, 110):
        cases.append({"ops": [load(0, b"[" * n + b"]" * n), load(1, b'{"a":' * n + b"1" + b"}" * n)]})
    cases.append({"ops": [load(1, ("[" + ",".join(str(k) for k in range(400)) + "]").encode()), load(0, ("{" + ",".join('"k%03d":%d' % (k, k) for k in range(150)) + "}").encode()), load(2, ('"' + "y" * 5000 + '"').encode())]})
    ck.log("%d histories" % len(cases))
    step = 6000
    for k in range(0, len(cases), step):
        part = cases[k:k + step]
        recs = execute(exe, part, idle=60, per=100)
        ck.validate("JsonTrace", recs, name="json", rerun=lambda i: execute(exe, [part[i]], idle=60)[0], describe=lambda i: describe(part[i]), timeout=3000)
        if ck.violations:
            return
        if k == 0:
            good = [json.loads(x) for x in recs if isinstance(x, str)]
    ck.sample(describe(cases[-1])[:300])
    bind(ck, good)


def describe(case):
    return json.dumps([bytes(o["doc"]).decode("utf-8", "backslashreplace") if "doc" in o else {"tree": o["tree"]} for o in case["ops"]])


def bind(ck, good):
    r, bad = ck.rng, []

    def corrupt(op, f):
        for _ in range(3000):
            x = json.loads(json.dumps(r.choice(good)))
            ss = [s for s in x["steps"] if s["op"] == op]
            try:
                if ss and f(r.choice(ss)) is not False:
                    bad.append(x)
                    return
            except (IndexError, KeyError, TypeError):
                pass

    def scalar(t, s):
        x = s["tree"]
        while x["vs"]: x = x["vs"][0]
        if x["t"] != t: raise KeyError
        return x
    plain = lambda s: s["ok"] and len(s["tree"]["ks"]) == len({bytes(k).lower() for k in s["tree"]["ks"]})
    top = lambda s, t: s["tree"] if plain(s) and s["tree"]["t"] == t and len(s["tree"]["vs"]) > 1 else [][0]
    corrupt("load", lambda s: s.update(n=s["n"] + 1))
    corrupt("load", lambda s: s.update(ok=False) if s["ok"] and len(s["doc"]) < 6 else False)
    corrupt("load", lambda s: s["tree"].update(t="null") if s["ok"] and s["tree"]["t"] in ("array", "string") else False)
    corrupt("load", lambda s: s["tree"]["p"].append(0) if s["tree"]["t"] == "string" else False)
    corrupt("load", lambda s: s["tree"]["p"].__setitem__(1, [3]) if s["tree"]["t"] == "float" and s["tree"]["p"][1] != [3] and s["tree"]["p"][2] > -500 else False)
    corrupt("load", lambda s: top(s, "array")["vs"].pop())
    corrupt("load", lambda s: s["dump"].pop() if s["ok"] and s["tree"]["t"] in ("array", "string") else False)
    corrupt("load", lambda s: s["again"].update(n=2) if s["ok"] and s["tree"]["t"] in ("array", "string") and "ks" in s["tree"] and not any(v["ks"] for v in s["tree"]["vs"]) else False)
    corrupt("built", lambda s: s["dump"].__setitem__(0, 32))
    corrupt("built", lambda s: s["tree"].update(t="differs"))
    corrupt("roots", lambda s: s["trees"].pop())
    ck.must_reject("JsonTrace", bad)
