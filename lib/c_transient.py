"""C26: values that own objects of user-defined types."""
import json
import vt, machine
from c_store import execute


def history(r, n):
    """Random history; keeps track of what the variables hold, as far as needed to stay within sensible operations."""
    kinds = ["obj", "obj", "val", "val"]
    ss, ops = [-1] * 4, []
    while len(ops) < n:
        s, t = r.randrange(4), r.randrange(4)
        k = r.choice(["make", "make", "scalar", "copy", "move", "acopy", "acopy", "amove", "amove", "swap", "destroy", "set", "xcopy", "xacopy"])
        m, ks, kt = r.choice([1, 2]), kinds[s], kinds[t]
        a, b = ss[s], ss[t]
        out = b != -1 and (ks == kt or ks == "val" or b in (0, 1, 2))
        if k in ("make", "scalar", "destroy", "set"): t = s
        if not {"make": a == -1, "scalar": ks == "val", "copy": a == -1 and s != t and out, "move": a == -1 and s != t and b != -1 and (ks == kt or kt == "obj"), "acopy": a != -1 and out,
                "amove": a != -1 and b != -1 and (ks == kt or kt == "obj"), "swap": a != -1 and b != -1 and ks == kt and s < t, "destroy": a != -1, "set": ks == "obj" and a in (1, 2),
                "xcopy": a == -1 and ks == kt == "obj" and b in (1, 2), "xacopy": a != -1 and ks == kt == "obj" and b in (1, 2) and s != t}[k]:
            continue
        ops.append({"op": k, "s": s + 1, "t": t + 1, "m": m if k == "make" else 1, "p": len(ops) + 1})
        if k == "make": ss[s] = m
        elif k == "scalar": ss[s] = 9
        elif k in ("copy", "acopy"): ss[s] = b
        elif k in ("move", "amove") and s != t: ss[s], ss[t] = b, (0 if b in (1, 2) else b)
        elif k == "swap": ss[s], ss[t] = b, a
        elif k == "destroy": ss[s] = -1
        elif k == "xacopy" and a in (1, 2):     # holds what it held, or nothing: not used as a source any more
            ops.append({"op": "destroy", "s": s + 1, "t": s + 1, "m": 1, "p": len(ops) + 1})
            ss[s] = -1
    return ops


def known(hist):
    """Failed assignments leave it open what the target holds: operations that depend on it are left out."""
    res, open_ = [], set()
    for op in hist:
        if op["s"] in open_ and op["op"] not in ("destroy", "make", "scalar", "acopy", "amove"): break
        if op["t"] in open_ and op["t"] != op["s"]: break
        if op["op"] in ("acopy", "amove") and op["s"] == op["t"] and op["s"] in open_: break
        res.append(op)
        open_.discard(op["s"])
        if op["op"] == "xacopy": open_.add(op["s"])
    return res


BIN = ["+", "+", "==", "!=", "<", "wordy", "-", "*"]


def obj(r, depth):
    if depth == 0 or r.random() < 0.35:
        return {"k": r.choice("tu"), "n": r.randrange(10)}
    if r.random() < 0.4:
        return {"k": "un", "op": r.choice(["-", "-", "-", "-", "~"]), "a": obj(r, depth - 1)}
    a, b = obj(r, depth - 1), r.choice([obj, integer, null])(r, depth - 1)
    return {"k": "bin", "op": "+", "a": a, "b": b} if r.random() < 0.6 else {"k": "bin", "op": "+", "a": b, "b": a}


def integer(r, depth):
    if depth == 0 or r.random() < 0.5:
        return {"k": "i", "n": r.randrange(10)}
    if r.random() < 0.5:
        return {"k": "un", "op": "#", "a": first(r, depth - 1)}
    if r.random() < 0.5:
        return {"k": "un", "op": "wordy", "a": {"k": "u", "n": r.randrange(10)}}
    return {"k": "bin", "op": "+", "a": integer(r, depth - 1), "b": integer(r, depth - 1)}


def first(r, depth):
    return {"k": "un", "op": "-", "a": first(r, depth - 1)} if depth > 0 and r.random() < 0.3 else {"k": "t", "n": r.randrange(10)}


def null(r, depth):
    return {"k": "n"}


def expression(r):
    x = r.random()
    if x < 0.15:
        return {"k": "each", "a": {"k": r.choice("tttu"), "n": r.randrange(10)}}
    if x < 0.45:
        return {"k": "un", "op": r.choice(["-", "typeof", "?", "not", "string", "#", "~", "wordy"]), "a": obj(r, r.randrange(3))}
    if x < 0.9:
        a, b = obj(r, r.randrange(2)), r.choice([obj, integer, null])(r, r.randrange(3))
        if r.random() < 0.4: a, b = b, a
        return {"k": "bin", "op": r.choice(BIN), "a": a, "b": b}
    return obj(r, 3)


def source(e, folded):
    s = lambda x: source(x, folded)
    n = str(e.get("n", "")) if folded else "n%s" % e.get("n")
    k = e["k"]
    if k in "tu": return "%s(%s)" % (k, n)
    if k == "i": return n
    if k == "n": return "null"
    if k == "each": return "(%s)..." % s(e["a"])
    if k == "bin": return "(%s %s %s)" % (s(e["a"]), e["op"], s(e["b"]))
    a = s(e["a"])
    return {"-": "(-(%s))", "~": "(~(%s))", "not": "(not (%s))", "#": "(#(%s))", "typeof": "(typeof (%s))", "?": "((%s)?)", "string": "((%s) as string)", "wordy": "((%s) wordy)"}[e["op"]] % a


def full(e):
    """One shape for all expressions."""
    r = {"k": e["k"], "n": e.get("n", 0), "op": e.get("op", "")}
    for x in "ab":
        if x in e: r[x] = full(e[x])
    return r


def run(ck):
    exe = vt.build("transient", ["transient.cpp"], vt.repo_sources(), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
    r = ck.rng
    broken = vt.tlc(ck.dir, "MCTransient", "MCTransientBroken.cfg")
    if not broken.violated:
        raise vt.ToolError("MCTransient does not depend on the order of copying and releasing")
    hists = machine.emitted(ck, "MCTransient", "MCTransient%d.cfg" % ck.pick(4, 5), timeout=2000)
    longs = machine.emitted(ck, "MCTransient", "MCTransientLong.cfg", simulate="num=%d" % ck.pick(40, 1000), extra=("-depth", "21", "-seed", str(ck.seed)))
    n = len(hists)
    hists = r.sample(hists, min(n, ck.pick(15000, 200000)))
    longs = r.sample(longs, min(len(longs), ck.pick(300, 5000)))
    cases = [{"ops": known(h)} for h in hists + longs]
    cases += [{"ops": history(r, r.choice([5, 10, 30, 80]))} for _ in range(ck.pick(1500, 20000))]
    es = [expression(r) for _ in range(ck.pick(3000, 30000))]
    cases += [{"e": full(e), "src": source(e, False), "folded": source(e, True)} for e in es]
    ck.note("histories", {"enumerated": n, "executed": len(hists), "long": len(longs), "expressions": len(es)})
    cases = [c for c in cases if c.get("e") or c["ops"]]
    ck.log("%d histories" % len(cases))
    step = 30000
    for k in range(0, len(cases), step):
        part = cases[k:k + step]
        recs = execute(exe, part, idle=60, per=300)
        ck.validate("TransientTrace", recs, name="transient", rerun=lambda i: execute(exe, [part[i]], idle=60)[0], describe=lambda i: json.dumps(part[i]), timeout=3000)
        if ck.violations:
            return
        if k == 0:
            good = [json.loads(x) for x in recs if isinstance(x, str)]
    ck.sample(cases[-1]["src"])
    bind(ck, good)


def bind(ck, good):
    r, bad = ck.rng, []

    def corrupt(f):
        for _ in range(3000):
            x = json.loads(json.dumps(r.choice(good)))
            if f(x["steps"][0] if x["steps"][0]["op"]["op"] == "expr" else r.choice(x["steps"])) is not False:
                bad.append(x)
                return
    has = lambda s, k: s.get(k, False)
    corrupt(lambda s: s.update(alive=s["alive"] + 1))
    corrupt(lambda s: s.update(errors=1))
    corrupt(lambda s: s.update(threw=not s["threw"]) if "threw" in s else False)
    corrupt(lambda s: s["see"][1].update(p=500) if has(s, "see") else False)
    corrupt(lambda s: s["see"][2].update(m=7) if has(s, "see") else False)
    corrupt(lambda s: s["runs"][1].append(s["runs"][1][0]) if has(s, "runs") and s["runs"][1] else False)
    corrupt(lambda s: s["runs"][0][0].update(n=12345) if has(s, "runs") and s["runs"][0] else False)
    ck.must_reject("TransientTrace", bad)
