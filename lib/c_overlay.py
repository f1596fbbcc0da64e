"""C25: overlays and objects with procedural fields."""
import json
import vt, machine
from c_store import execute

KEYS = ["", "a", "b", "c", "d"]
NIL = {"k": "nil", "n": 0, "t": "null", "v": ""}


def document(r):
    """A random model; members refer to later nodes only, callbacks too (or to fields that exist)."""
    n = r.randrange(4, 12)
    doc = []
    for i in range(1, n + 1):
        t = r.choice(["object", "object", "array", "proc", "proc", "bare", "int", "string", "bool", "float", "null"]) if i > 1 else r.choice(["object", "proc", "array"])
        if i == n: t = "int"
        d = {"t": t, "v": {"int": str(r.randrange(-99, 999)), "string": r.choice(["", "x", "hello"]), "bool": r.choice(["true", "false"]), "float": r.choice(["0.5", "-2.25"])}.get(t, ""), "ks": [], "cs": [], "fs": []}
        if t in ("object", "array", "proc"):
            for _ in range(r.choice([0, 1, 2, 2, 3, 6])):
                if i < n:
                    d["cs"].append(r.randrange(i + 1, n + 1))
                    d["ks"].append(r.choice(KEYS[1:]) if t != "array" else "")
        if t in ("proc", "bare"):
            for k in r.sample(KEYS[1:], r.choice([0, 1, 2, 2, 3])):
                have = [f["k"] for f in d["fs"] if f["f"] != "alias"] + [x for x in d["ks"] if x not in [f["k"] for f in d["fs"]]]
                f = r.choice(["const", "node", "count"] + ["alias"] * bool([x for x in have if x != k]))
                d["fs"].append({"k": k, "f": f, "x": r.randrange(i + 1, n + 1) if f == "node" else 0, "s": r.choice([x for x in have if x != k]) if f == "alias" else r.choice(["p", "static"])})
            # a later procedural field may hide the stored one that an alias refers to; that must not make a circle
            names = {f["k"]: f for f in d["fs"]}
            for f in d["fs"]:
                seen, g = set(), f
                while g is not None and g["f"] == "alias":
                    if g["k"] in seen:
                        f.update(f="count", s=""); break
                    seen.add(g["k"])
                    g = names.get(g["s"])
        doc.append(d)
    return doc


def path(r):
    res = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        a = r.choice(["get", "get", "at", "it"])
        res.append({"a": a, "s": r.choice(KEYS) if a == "get" else "", "i": 0 if a == "get" else r.randrange(0, 4)})
    return res


def query(r):
    steps, src = [], "_"
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        a = r.choice(["field", "field", "any", "deep", "at"])
        s = {"a": a, "s": r.choice(KEYS[1:]) if a == "field" else "", "i": r.choice([-1, 0, 0, 1, 2, 7]) if a == "at" else 0}
        steps.append(s)
        src = "(%s)[%d]" % (src, s["i"]) if a == "at" else "(%s).%s" % (src, {"field": s["s"], "any": "*", "deep": "**"}[a])
    fn = r.choice(["", "", "keys"])
    return {"steps": steps, "fn": fn, "src": "keys(%s)" % src if fn else src}


def op(k, **kw):
    return dict({"op": k, "h": 0, "n": 0, "key": "", "v": NIL, "s": ""}, **kw)


def observe(r, docs, handles, n):
    res = []
    for _ in range(n):
        k = r.random()
        if k < 0.45 and handles: res.append(op("look", h=r.randrange(1, handles + 1), path=path(r)))
        elif k < 0.6: res.append(op("node", n=r.randrange(1, docs + 1), path=path(r)))
        elif k < 0.65: res.append(op("json", n=r.randrange(1, docs + 1)))
        elif handles and k < 0.9: res.append(op("eval", h=r.randrange(1, handles + 1), **query(r)))
        else: res.append(op("eval", n=r.randrange(1, docs + 1), **query(r)))
    return res


def all_looks(docs, handles):
    return [op("look", h=h, path=[]) for h in range(1, handles + 1)] + [op("node", n=n, path=[]) for n in range(1, docs + 1)]


def history(r, n):
    doc = document(r)
    ops, docs, handles, ovs = [], len(doc), [], 0
    while len(ops) < n:
        k = r.choice(["wrap", "set", "set", "set", "again", "add"])

        def value(limit):
            x = r.random()
            if x < 0.25 and limit: return {"k": "ov", "n": r.randrange(1, limit + 1), "t": "", "v": ""}
            if x < 0.7: return {"k": "doc", "n": r.randrange(1, docs + 1), "t": "", "v": ""}
            t = r.choice(["int", "bool", "float", "string", "null"])
            return {"k": "sc", "n": 0, "t": t, "v": {"int": "42", "bool": "false", "float": "1.5", "string": r.choice(["", "zz"]), "null": ""}[t]}
        if k == "wrap":
            ops.append(op("wrap", v=value(ovs)))
            ovs += 1
            handles.append(ovs)
        elif k == "again" and handles:
            h = r.randrange(len(handles))
            ops.append(op("again", h=h + 1))
            handles.append(handles[h])
        elif k == "set" and handles:
            h = r.randrange(len(handles))
            ops.append(op("set", h=h + 1, key=r.choice(KEYS), v=value(handles[h] - 1)))
        elif k == "add":
            c = [i + 1 for i, d in enumerate(doc) if d["t"] in ("object", "array", "proc")]
            if c:
                ops.append(op("add", n=r.choice(c), key=r.choice(KEYS[1:]), s=str(1000 + len(ops))))
                docs += 1
        else:
            continue
        ops += observe(r, docs, len(handles), r.choice([0, 1, 2]))
    ops += all_looks(len(doc), len(handles)) + observe(r, docs, len(handles), 6)
    return {"doc": doc, "keys": KEYS, "ops": ops}


def enumerated(base, hist, r):
    ops, docs, handles = [], len(base), 0
    for o in hist:
        ops.append(o)
        handles += o["op"] in ("wrap", "again")
        docs += o["op"] == "add"
    return {"doc": base, "keys": KEYS, "ops": ops + all_looks(docs, handles) + observe(r, docs, handles, 2)}


def run(ck):
    exe = vt.build("overlay", ["overlay.cpp"], vt.repo_sources(), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
    r = ck.rng
    cfg = "MCOverlay%d.cfg" % ck.pick(3, 4)
    hists = machine.emitted(ck, "MCOverlay", cfg, timeout=2000)
    with open("%s/emit-%s.txt.base" % (ck.dir, cfg)) as f:
        base = f.readline().strip()
        base = json.loads(json.loads(base)) if base.startswith('"') else json.loads(base)
    longs = machine.emitted(ck, "MCOverlay", "MCOverlayLong.cfg", simulate="num=%d" % ck.pick(20, 300), extra=("-depth", "13", "-seed", str(ck.seed)))
    n = len(hists)
    hists = r.sample(hists, min(n, ck.pick(5000, 60000)))
    longs = r.sample(longs, min(len(longs), ck.pick(300, 3000)))
    cases = [enumerated(base, h, r) for h in hists + longs]
    cases += [history(r, r.choice([2, 4, 8, 25])) for _ in range(ck.pick(2500, 25000))]
    ck.note("histories", {"enumerated": n, "executed": len(hists), "long": len(longs), "random": ck.pick(2500, 25000)})
    ck.log("%d histories" % len(cases))
    step, good = 8000, []
    for k in range(0, len(cases), step):
        part = cases[k:k + step]
        recs = execute(exe, part, idle=60, per=300)
        ck.validate("OverlayTrace", recs, name="overlay", rerun=lambda i: execute(exe, [part[i]], idle=60)[0], describe=lambda i: json.dumps(part[i]), timeout=3000)
        if ck.violations:
            return
        good = [json.loads(x) for x in recs if isinstance(x, str)]
    ck.sample(json.dumps(cases[-1]["ops"][0]))
    bind(ck, good)


def bind(ck, good):
    r, bad = ck.rng, []

    def corrupt(kind, f):
        for _ in range(5000):
            x = json.loads(json.dumps(r.choice(good)))
            s = [s for s in x["steps"] if s["op"]["op"] in kind]
            if s and f(r.choice(s)) is not False:
                bad.append(x)
                return
        raise vt.ToolError("nothing to corrupt")
    looks = ("look", "node")

    def swap(xs):
        if len(xs) < 2 or xs[0] == xs[-1]: return False
        xs[0], xs[-1] = xs[-1], xs[0]
    corrupt(looks, lambda s: s["view"]["me"].update(n=s["view"]["me"]["n"] + 1))
    corrupt(looks, lambda s: s["view"]["get"][2].update(v="other") if s["view"]["get"] else False)
    corrupt(looks, lambda s: s["view"]["at"][1].update(t="int") if s["view"]["at"] else False)
    corrupt(looks, lambda s: swap(s["view"]["it"]))
    corrupt(looks, lambda s: s["view"]["ks"].__setitem__(2, "zz") if len(s["view"]["ks"]) > 4 else False)
    corrupt(looks, lambda s: s["view"]["go"].__setitem__(0, True) if s["view"]["go"] else False)
    corrupt(looks, lambda s: s["view"]["stop"].__setitem__(0, 2) if s["view"]["stop"] else False)
    corrupt(looks, lambda s: s["view"].update(errors=1))
    corrupt(("eval",), lambda s: s["got"].append(s["got"][0]) if s["got"] else False)
    corrupt(("eval",), lambda s: s["keys"].pop() and None if s["keys"] else False)
    corrupt(("set",), lambda s: s["op"].update(h=99))
    ck.must_reject("OverlayTrace", bad)
