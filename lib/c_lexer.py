"""C01-C04: the tokenizer against spec/Lex.tla."""
import decimal, itertools, json, math, os, re
import vt

MODE = {"C01": "number", "C02": "string", "C03": "word", "C04": "cover"}
MODELS = {"C01": ["MCLexNum", "MCLexDigits"], "C02": ["MCLexStr", "MCLexQuote", "MCLexRaw"],
          "C03": ["MCLexOp", "MCLexSpell"], "C04": ["MCLexMix", "MCLexNum", "MCLexOp", "MCLexStr"]}

I63 = 2 ** 63
SPELL = ["(", ")", "{", "}", "[", "]", ",", ":", "...", "**", ".", "+", "-", "*", "/", "%", "<<", ">>", "~", "|", "&", "#",
         "^", "?", "<=", "<", ">=", ">", "==", "!=", "="]
KEYWORDS = ["_", "and", "or", "not", "typeof", "true", "false", "null", "as"]


def allstr(alpha, n, m=0):
    for k in range(m, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def numbers(ck):
    r = ck.rng
    yield from allstr("019.e+xbf ", 4)
    yield from allstr("0.e-", ck.pick(5, 6), 5)
    if ck.thorough:
        yield from allstr("01.eE+xbf_", 5, 5)
    # limits of the integer range, in each base, with leading zeros and contexts
    for n in [0, 1, 9, 10, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, I63 - 2, I63 - 1, I63, I63 + 1,
              2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 18, 10 ** 19, I63 // 10, I63 // 10 * 10, I63 // 16, (I63 - 1) * 10, (I63 - 1) * 10 + 9,
              (I63 - 1) * 16 + 15, I63 * 2 - 16, 12345678901234567890123]:
        for s in ("%d" % n, "0x%x" % n, "0X%x" % n, "0x%X" % n, "0b%s" % bin(n)[2:], "%d." % n, "%d.0" % n, ".%d" % n, "%de0" % n,
                  "%de1" % n, "%de-1" % n, "%dE+0" % n, "%d.5e3" % n):
            for ctx in ("%s", "00%s", "-%s", "%s+1", " %s ", "%sa", "%s.", "%s_", "%s(", "(%s)", "%s%s"):
                if ctx == "00%s" and s[1:2] in "xbX" and s[:1] == "0":
                    continue
                yield ctx.replace("%s", s)
        yield "0x00%x" % n
        yield "0b00%s" % bin(n)[2:]
    for e in list(range(-12, 13)) + [20, -20, 100, -100, 280, -280, 290, -290, 300, 306, 307, 308, 309, 310, -300, -306, -307, -308, -309, -310, -318, -320, -322, -323, -324, -325, -326, -343, -344, 400, -400, 9999, 99999, 10 ** 6, 10 ** 12]:
        for m in ("1", "0", "9", "10", "5.", ".5", "1.5", "0.001", "123456.789", "000.100", "9.999999999999999", "0.1", "3.", "7e", "100000000000000000000"):
            for x in ("e", "E"):
                yield "%s%s%d" % (m, x, e)
                if e >= 0:
                    yield "%s%s+%d" % (m, x, e)
                    yield "%s%s0%d" % (m, x, e)
    # around the largest double, the smallest normal and the smallest one, exactly half way and next to it
    def exact(n, d):   # n * 2^d as decimal digits
        if d >= 0:
            return str(n << d) + "."
        t = str(n * 5 ** -d).rjust(-d + 1, "0")
        return t[:d] + "." + t[d:]
    for n, d in ((2 ** 53 - 1, 971), (2 ** 54 - 1, 970), (2 ** 53, 971), (1, 1024), (1, -1074), (1, -1075), (3, -1075), (1, -1076), (3, -1076),
                 (1, -1022), (2 ** 53 - 1, -1075), (2 ** 52 - 1, -1074)):
        s = exact(n, d)
        q = len(s) - 1
        for t in (s, s + "0", s + "1", s[:-1] + str((int(s[-1]) - 1) % 10) if s[-1] not in ".0" else s + "e0"):
            yield t
        body = s.replace(".", "").lstrip("0")
        x = len(s.split(".")[0].lstrip("0")) if s.split(".")[0].lstrip("0") else -(len(s.split(".")[1]) - len(s.split(".")[1].lstrip("0")))
        for k in (17, 18, 20, 40, len(body)):
            yield "%s.%se%d" % (body[0], body[1:k], x - 1)
            yield ".%se%d" % (body[:k], x)
            yield ".%s9e%d" % (body[:k], x)
    # every byte after a number, and before one
    for c in range(256):
        for s in ("1", "1.5", "1.", ".5", "1e5", "1.5e5", "0x1", "0b1", "0x", "0b", "1e", "1e+", "0", "12"):
            yield s.encode() + bytes([c])
            yield s.encode() + bytes([c]) + b"1"
        yield bytes([c]) + b"12"
    for c1 in "eE.xXbB+-_ aAfFgG019":
        for c2 in "eE.xXbB+-_ aAfFgG019":
            for s in ("1", "0", "1.", "0x1", "0b1", "1e1"):
                yield s + c1 + c2
    n = ck.pick(6000, 60000)
    dig = "0123456789"
    for _ in range(n):
        k = r.randrange(9)
        def D(a, b):
            return "".join(r.choice(dig) for _ in range(r.randint(a, b)))
        e = r.choice(["", "", "e%d" % r.randint(-30, 30), "E+%d" % r.randint(0, 40), "e-%d" % r.randint(0, 40)])
        if k == 0:
            s = D(1, 25) + e
        elif k == 1:
            s = D(1, 10) + "." + D(0, 20) + e
        elif k == 2:
            s = "." + D(1, 20) + e
        elif k == 3:
            s = "0x" + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 17)))
        elif k == 4:
            s = "0b" + "".join(r.choice("01") for _ in range(r.randint(1, 66)))
        elif k == 5:
            s = str(r.choice([I63, 2 ** 64, 2 ** 32, 10 ** 18]) + r.randint(-20, 20))
        elif k == 6:
            s = "".join(r.choice("0123456789.eE+-xb ") for _ in range(r.randint(1, 12)))
        elif k == 7:
            s = D(1, 3) + r.choice([".", "..", "...", "e", ".e", "x", "b", "_", "+", "-"]) + D(0, 3) + e
        else:
            s = "0" * r.randint(0, 30) + str(r.getrandbits(r.randint(1, 66)))
        if r.random() < 0.25:
            s = s + r.choice([" ", "+", "-", " + ", "\t", ",", ")"]) + r.choice([D(1, 4), "." + D(1, 3), "0x" + D(1, 3), D(1, 3) + "." + D(0, 2)])
        if r.random() < 0.1:
            p = r.randrange(len(s))
            s = s[:p] + r.choice("0123456789.eE+-xbaf_ ") + s[p + r.randint(0, 1):]
        yield s
    # decimals next to the midpoint of two adjacent doubles
    for _ in range(ck.pick(300, 3000)):
        v = r.choice([r.random(), r.random() * 10 ** r.randint(0, 17), r.getrandbits(53) * 2.0 ** r.randint(-30, 40)])
        with decimal.localcontext() as c:
            c.prec = 400
            m = (decimal.Decimal(v) + decimal.Decimal(math.nextafter(v, math.inf))) / 2
            for d in (m, m * (1 + decimal.Decimal(10) ** -r.randint(18, 60)), m * (1 - decimal.Decimal(10) ** -r.randint(18, 60))):
                t = "%f" % 0 if d == 0 else format(d, "f")
                if len(t) < 270:
                    yield t if "." in t else t + "."
    for n in (40, 100, 200, 270):     # long digit strings
        yield "9" * n
        yield "9" * n + "."
        yield "0" * n + "7"
        yield "0x" + "0" * n + "ff"
        yield "0b" + "0" * n + "11"
        yield "1." + "3" * n
        yield "." + "0" * (n // 2) + "7"
        yield "7" * n + "e-%d" % (n - 1)


def strings(ck):
    r = ck.rng
    yield from allstr("'\"\\rena"[:6], ck.pick(5, 6))
    for q in "'\"":
        for p in ("", "r", "R", "re", "RE", "Re", "rE", "er", "rr", "x", "r ", "re "):
            for body in allstr(["a", "\\", "'", '"', "\n", "n", "\0"], 3):
                yield p + q + body + q
                yield p + q + body
            for c in range(256):
                b = p.encode() + q.encode()
                yield b + bytes([c]) + q.encode()
                yield b + b"\\" + bytes([c]) + q.encode()
                yield b + b"a\\" + bytes([c])
    n = ck.pick(6000, 60000)
    for _ in range(n):
        def lit():
            q = r.choice("'\"")
            body = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60])):
                x = r.random()
                if x < 0.35:
                    body.append(r.choice("abnrt019 ."))
                elif x < 0.5:
                    body.append("\\" + r.choice("\\'\"nrtabxu0"))
                elif x < 0.6:
                    body.append("\\" + q)
                elif x < 0.7:
                    body.append('"' if q == "'" else "'")
                elif x < 0.75:
                    body.append("\\")
                elif x < 0.78:
                    body.append(q)
                else:
                    body.append(chr(r.randrange(256)))
            return r.choice(["", "", "r", "R", "re", "RE"]) + q + "".join(body) + (q if r.random() < 0.95 else "")
        s = lit()
        while r.random() < 0.3:
            s += r.choice(["", " ", "+", " == ", "\n"]) + lit()
        yield s.encode("latin-1")
    for n in (100, 300):
        yield "'" + "x" * n + "'"
        yield "'" + "\\\\" * n + "'"
        yield "r'" + "\\" * n + "a'"
        yield "re'" + "\\'" * n + "'"


def words(ck):
    r = ck.rng
    yield from allstr("<>=!*.&", 4)
    yield from allstr(["<", ">", "=", "!", "*", ".", "...", " ", "a"], ck.pick(4, 5), 1)
    yield from allstr(["a", "\\", "1", "_", " ", "."], ck.pick(4, 5), 1)
    allsp = SPELL + KEYWORDS + ["a", "A", "X1", "$v", "\\ x", "1", "'s'"]
    for a in allsp:
        yield a
        for b in allsp:
            for sep in ("", " ", "\t\n", "\r\v\f "):
                yield a + sep + b
    for k in KEYWORDS:
        for mask in range(2 ** len(k)):
            v = "".join(c.upper() if mask >> i & 1 else c for i, c in enumerate(k))
            yield v
            yield v + "("
        for f in ("x%s", "%sx", "%s_", "_%s", "%s1", "1 %s", "$%s", "%s$", "\\%s", "%s\\ ", "%s.a", "a.%s", "%s%s", "%s %s"):
            yield f.replace("%s", k)
            yield f.replace("%s", k.upper())
    for w in ("typeo", "typeofs", "nul", "nulls", "nott", "no", "an", "andy", "orr", "o", "assert", "a", "trues", "tru", "fals", "As_", "__", "_a", "_1", "$", "$$",
              "$a$b", "a$", "\\", "a\\", "\\\\", "a\\\\", "\\ ", "a\\ b", "a\\.b", "\\1a", "a\\\nb", "A", "AB_C1", "re", "r", "R", "e1", "x0", "b1", "E5"):
        for f in ("%s", " %s ", "%s.%s", "(%s)", "%s'x'", "%s+%s", "%s..."):
            yield f.replace("%s", w)
    for c in range(256):
        yield bytes([c])
        yield b"a" + bytes([c]) + b"b"
        yield b"a\\" + bytes([c]) + b"b"
        yield b"a1\\" + bytes([c])
        yield b"\\" + bytes([c]) + b"b"
        yield b"a " + bytes([c])
        yield bytes([c]) + b"=" + bytes([c])
    frag = SPELL * 2 + KEYWORDS * 2 + ["a", "bc", "A", "FOO", "$x", "a\\ b", "\\$", "_x", "x_", "Not", "AND", "TypeOf", "nUll"]
    for _ in range(ck.pick(5000, 50000)):
        s = ""
        for _ in range(r.randint(1, 9)):
            s += r.choice(frag) + r.choice(["", "", " ", "  ", "\t", "\n"])
        yield s
    yield "a" * 300
    yield "a" + "\\ " * 200


def cover(ck):
    r = ck.rng
    for a in range(256):
        yield bytes([a])
        yield b" " + bytes([a])
        yield b"a" + bytes([a])
        yield bytes([a]) + b"a"
        yield b"1+" + bytes([a]) + b"+2"
        yield b"a\0" + bytes([a])
        yield bytes([a]) * 3
    yield from allstr(["'", "r", "0", "x", ".", "-", "\\", "a", "\n", "\0"], 4)
    frag = SPELL + KEYWORDS + ["a", "bc", "1", "12", "0x1f", "0b1", "1.5", ".5", "1e5", "'s t'", '"q"', "r'\\'", "re'x.*'", "R\"\"", "RE'\\''", "'\\n'",
                               "A\\ b", "$x", "\0", "\x80", "@", ";", "!", "`", "\x7f", "'", "\"", "\\", "0x", "1e", "1a"]
    good = frag[:len(frag) - 13]
    for _ in range(ck.pick(7000, 70000)):
        src = good if r.random() < 0.7 else frag
        s = "".join(r.choice(src) + r.choice(["", " ", " ", "\n\t", "   "]) for _ in range(r.randint(1, 10)))
        yield s.encode("latin-1")
    for _ in range(ck.pick(3000, 30000)):
        yield bytes(r.randrange(256) for _ in range(r.randint(1, 14)))
    for _ in range(ck.pick(3000, 30000)):
        yield bytes(r.choice(b"()[]{},.:*+-/%<>=!&|^~#?_ \"'rRe01x\\a\n") for _ in range(r.randint(1, 20)))
    yield b" " * 500
    yield b"a" * 2000
    yield b"a " * 600
    yield b"1 " * 300


CORPUS = {"C01": numbers, "C02": strings, "C03": words, "C04": cover}


def corpus(ck):
    seen, res = set(), []
    for s in CORPUS[ck.prop](ck):
        b = s if isinstance(s, bytes) else s.encode("latin-1")
        if b not in seen and b"\n" not in b[:0]:
            seen.add(b)
            res.append(b)
    return res


def run(ck):
    exe = vt.build("lexer", ["lexer.cpp"], [os.path.join(vt.REPO, s) for s in vt.TOKEN_SOURCES],
                   ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    for m in MODELS[ck.prop]:
        ck.model("MCLex", m + ".cfg")
    ins = corpus(ck)
    ck.log("%d inputs" % len(ins))

    def record(res, b):
        if isinstance(res, dict):
            return dict({"in": list(b), "exc": "", "pos": -1, "toks": [], "nil": False}, r=res["r"])
        return res

    def execute(bs):
        return [record(x, b) for x, b in zip(vt.run_lines([exe], [b.hex() for b in bs]), bs)]

    recs = execute(ins)
    env = {"VT_MODE": MODE[ck.prop]}
    ck.validate("LexTrace", recs, name="tokenizer-runs", env=env, rerun=lambda i: execute([ins[i]])[0], describe=lambda i: repr(ins[i]) + " -> " + str(recs[i]))
    ck.note("inputs_rejected_by_the_tokenizer", sum(1 for r in recs if isinstance(r, str) and '"r":"error"' in r))
    for i in (len(ins) // 3, len(ins) // 2, len(ins) - 30):
        ck.sample({"input": ins[i].decode("latin-1"), "record": recs[i] if isinstance(recs[i], dict) else json.loads(recs[i])})
    if not ck.violations:
        binding(ck, ins, recs, env)


def binding(ck, ins, recs, env):
    """Corrupt recorded runs: each corruption has to be rejected."""
    bad = []
    ok = [json.loads(r) for r in recs if isinstance(r, str) and '"r":"ok"' in r]
    mode = env["VT_MODE"]
    def want(t):
        return {"number": t["t"] in ("INT", "FLOAT"), "string": t["t"] in ("STRING", "REGEXP"),
                "word": t["t"] not in ("INT", "FLOAT", "STRING", "REGEXP"), "cover": True}[mode]
    ok = [r for r in ok if r["toks"] and all(want(t) for t in r["toks"]) and not any(t["v"].get("k") == "special" or abs(t["v"].get("lo", {}).get("x", 0)) > 250 for t in r["toks"])]
    r = ck.rng
    if mode == "cover":
        def spans(x): x["toks"][-1]["e"] += 1
        def begin(x): x["toks"][0]["b"] += 1
        def drop(x): x["toks"].pop(r.randrange(len(x["toks"])))
        def nil(x): x["nil"] = False
        muts = [spans, begin, drop, nil]
    else:
        def drop(x): x["toks"].pop()
        def dup(x): x["toks"].append(x["toks"][-1])
        def err(x): x["r"] = "error"
        def val(x):
            v = x["toks"][0]["v"]
            if v["k"] == "int": v["w"][0] ^= 1
            elif v["k"] == "dec" and "lo" in v: v["lo"], v["hi"] = v["hi"], v["lo"]
            elif v["k"] == "dec": v["d"][0] = 5
            elif v["k"] == "str": v["s"] = v["s"] + [65]
            else: x["toks"][0]["t"] = "COLON" if x["toks"][0]["t"] != "COLON" else "COMMA"
        muts = [drop, dup, err, val]
    for m in muts:
        for x in r.sample(ok, 2):
            y = json.loads(json.dumps(x))
            m(y)
            bad.append(y)
    ck.must_reject("LexTrace", bad, env=env)
