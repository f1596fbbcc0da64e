"""C17, C21 - C23: model pools, their streams and string pools."""
import json, struct
import vt, machine
from c_store import execute, codes

i64 = lambda v: list((v & (2 ** 64 - 1)).to_bytes(8, "little"))
dbl = lambda v: list(struct.pack("<d", v))
INTS = [0, 1, -1, 2, 42, 255, 256, 32767, 32768, -32767, -32768, -32769, 65534, 65535, 65536, 65537, -65536, 131072, 2**31 - 1, -2**31, 2**31, 2**32, 2**53 + 1, 2**63 - 1, -2**63, -2**63 + 1]
DBLS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 2.0**53, 65536.0]
STRS = ["", "a", "text", "a\0b", "\u00e4\u20ac\U0001f600", b"\xff\xfe", "x" * 300, "'\"\\", "0"]
NAMES = ["a", "A", "b", "name", "Name", "", "aB", "c d", "\u00e4", "any", "$sum", "long" * 30, "k1", "k2", "k3", "K1"]


def scalar(r, ints=INTS):
    x = r.random()
    n = {"n": 0, "f": r.choice(["v", "t"])}
    if x < 0.45:
        v = r.choice(ints) if r.random() < 0.8 else r.randint(-2**63, 2**63 - 1) >> r.randint(0, 60)
        n.update(t="int", p=i64(v))
        if 0 <= v < 65536 and r.random() < 0.3: n["f"] = r.choice(["u16", "tu16"])
        elif -32768 <= v < 32768 and r.random() < 0.3: n["f"] = r.choice(["i16", "ti16"])
    elif x < 0.65:
        n.update(t="dbl", p=dbl(r.choice(DBLS) if r.random() < 0.8 else r.uniform(-1e6, 1e6)))
    elif x < 0.85:
        n.update(t="str", p=codes(r.choice(STRS)))
    elif x < 0.93:
        n.update(t="bool", p=[r.randrange(2)])
    else:
        n.update(t="null", p=[], f="v")
    return n


class Shadow:
    """What a generator needs to know about a model: its containers, and what is below them."""
    def __init__(self, pool):
        self.pool, self.kids, self.names = pool, {}, {}
        self.no, self.na, self.roots, self.dangling = 0, 0, 0, False

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def below(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.kids.get(x, [])
        return seen

    def depth(self, c):        # number of paths below (what visits every path would take)
        return 1 + sum(self.depth(k) for k in self.kids.get(c, []))

    def containers(self):
        return [("obj", k) for k in range(self.no)] + [("arr", k) for k in range(self.na)]


def history(r, n, w, names=None):
    """Random history; w: weights of the kinds of operations."""
    ops = [{"op": "newpool"}, {"op": "newpool"}, {"op": "newmodel", "p": 0}]
    if r.random() < 0.7:
        ops.append({"op": "newmodel", "p": r.randrange(2)})
    names = names or r.sample(NAMES, r.randint(1, 8))
    pools = 2
    ms = [Shadow(o["p"]) for o in ops if o["op"] == "newmodel"]
    mstreams, pstreams = {}, {}
    kinds, weights = zip(*w.items())
    focus = None
    for _ in range(n):
        k = r.choices(kinds, weights)[0]
        mi = r.randrange(len(ms))
        m = ms[mi]

        def node(target=None):
            cs = [c for c in m.containers() if target is None or (target not in m.below(c) and m.depth(c) < 40)]
            if cs and r.random() < 0.35:
                c = r.choice(cs)
                return {"t": c[0], "n": c[1], "p": []}, c
            return scalar(r), None
        if k == "obj" or (k in ("field", "extendo") and not m.no):
            ops.append({"op": "obj", "m": mi, "cap": r.choice([-1, 0, 1, 2, 3, 5, 100])})
            m.no += 1
            m.kids[("obj", m.no - 1)] = []
        elif k == "arr" or (k in ("append", "extenda") and not m.na):
            ops.append({"op": "arr", "m": mi, "cap": r.choice([-1, 0, 1, 2, 3, 5, 100])})
            m.na += 1
            m.kids[("arr", m.na - 1)] = []
        elif k in ("field", "append"):
            c = ("obj", r.randrange(m.no)) if k == "field" else ("arr", r.randrange(m.na))
            for _ in range(r.choice([1, 1, 1, 2, 4, 9])):
                v, kid = node(c)
                if kid: m.kids[c].append(kid)
                op = {"op": k, "m": mi, "v": v}
                op.update({"o": c[1], "s": codes(r.choice(names))} if k == "field" else {"a": c[1]})
                ops.append(op)
        elif k in ("extendo", "extenda"):
            t = "obj" if k == "extendo" else "arr"
            size = m.no if t == "obj" else m.na
            c, d = (t, r.randrange(size)), (t, r.randrange(size))
            kids = [x for x in m.kids[d]]
            if any(c in m.below(x) for x in kids) or len(m.kids[c]) + len(kids) > 12 or sum(m.depth(x) for x in kids) > 40:
                continue
            m.kids[c] += kids
            if len([o for o in ops if o["op"] == "extend"]) < 8:
                ops.append({"op": "extend", "m": mi, "from": d[1], ("o" if t == "obj" else "a"): c[1]})
        elif k == "root":
            v, kid = node()
            ops.append({"op": "root", "m": mi, "v": v})
            m.roots += 1
        elif k == "nil":
            x = r.randrange(3)
            if x == 0: ops.append({"op": "root", "m": mi, "v": {"t": "nil", "n": 0, "p": []}})
            elif x == 1 and m.no: ops.append({"op": "field", "m": mi, "o": r.randrange(m.no), "s": [], "v": {"t": "nil", "n": 0, "p": []}})
            elif x == 2 and m.na: ops.append({"op": "append", "m": mi, "a": r.randrange(m.na), "v": {"t": "nil", "n": 0, "p": []}})
        elif k == "rootat":
            ops.append({"op": "rootat", "m": mi, "i": r.choice([0, m.roots - 1, m.roots, m.roots + 1, -1, 1000000])})
        elif k == "resolve":
            v, _ = node()
            ops.append({"op": "resolve", "m": mi, "as": r.choice(["obj", "arr"]), "v": dict(v, f="v")})
        elif k == "touch":
            v, _ = node()
            if r.random() < 0.6:
                v = {"t": "bad", "n": r.randrange(12), "p": []}
            elif r.random() < 0.5:
                v = {"t": "obj", "n": m.no + r.choice([0, 1, 5]), "p": []} if r.random() < 0.5 else {"t": "arr", "n": m.na + r.choice([0, 1, 5]), "p": []}
            ops.append({"op": "touch", "m": mi, "v": dict(v, f="v")})
        elif k == "dangle":         # a reference to something missing; nothing is built in this model afterwards
            x = r.random()
            v = {"t": "bad", "n": r.randrange(12), "p": []} if x < 0.5 else {"t": "obj", "n": m.no + r.choice([0, 1, 7]), "p": []} if x < 0.75 else {"t": "arr", "n": m.na + r.choice([0, 1, 7]), "p": []}
            y = r.randrange(3)
            if y == 0: ops.append({"op": "root", "m": mi, "v": v})
            elif y == 1 and m.no: ops.append({"op": "field", "m": mi, "o": r.randrange(m.no), "s": codes(r.choice(names)), "v": v})
            elif y == 2 and m.na: ops.append({"op": "append", "m": mi, "a": r.randrange(m.na), "v": v})
            else: continue
            ops += [{"op": "validate", "m": mi}, {"op": "dump", "m": mi, "full": 1}]
            ops += [{"op": "rootat", "m": mi, "i": i} for i in range(m.roots, m.roots + (y == 0))]
            if r.random() < 0.4:
                ops += [{"op": "write", "m": mi, "to": 4}, {"op": "newmodel", "p": m.pool}, {"op": "read", "m": len(ms), "from": 4}, {"op": "validate", "m": len(ms)}, {"op": "dump", "m": len(ms), "full": 1}, {"op": "clear", "m": len(ms)}]
                ms.append(Shadow(m.pool))
            ops += [{"op": "clear", "m": mi}, {"op": "validate", "m": mi}]
            ms[mi] = Shadow(m.pool)
        elif k == "validate":
            ops.append({"op": "validate", "m": mi})
        elif k == "clear":
            ops += [{"op": "clear", "m": mi}] + ([{"op": "validate", "m": mi}] if r.random() < 0.5 else [])
            ms[mi] = Shadow(m.pool)
        elif k == "setStrings":
            p = r.randrange(pools)
            ops.append({"op": "setStrings", "m": mi, "p": p})
            m.pool = p
            if r.random() < 0.3: ops.append({"op": "strings", "m": mi, "p": r.randrange(pools)})
        elif k == "setnull":
            ops.append({"op": "setnull", "m": mi})
        elif k == "emplace":
            ops += [{"op": "emplace", "p": r.randrange(pools), "s": codes(r.choice(names if r.random() < 0.6 else NAMES))} for _ in range(r.randint(1, 3))]
        elif k == "newpool" and pools < 5:
            ops.append({"op": "newpool"})
            pools += 1
        elif k == "newmodel" and len(ms) < 4:
            p = r.randrange(pools)
            ops.append({"op": "newmodel", "p": p})
            ms.append(Shadow(p))
        elif k == "write":
            t = r.randrange(4)
            ops.append({"op": "write", "m": mi, "to": t})
            mstreams[t] = m.copy()
            if r.random() < 0.25: ops.append({"op": "cut", "from": t})
        elif k == "read" and mstreams:
            t = r.choice(sorted(mstreams))
            if r.random() < 0.7 and len(ms) < 6:
                p = mstreams[t].pool if r.random() < 0.7 else r.randrange(pools)
                ops.append({"op": "newmodel", "p": p})
                ms.append(Shadow(p))
                mi = len(ms) - 1
            ops.append({"op": "read", "m": mi, "from": t})
            pool = ms[mi].pool
            ms[mi] = mstreams[t].copy()
            ms[mi].pool = pool
            if r.random() < 0.5: ops.append({"op": "validate", "m": mi})
            if r.random() < 0.5: ops.append({"op": "dump", "m": mi, "full": 2})
        elif k == "pwrite":
            p, t = r.randrange(pools), r.randrange(4)
            ops.append(dict({"op": "pwrite", "p": p, "to": t}, **({"off": r.choice([0, 1, 2, 3, 4, 127, 128, 129, 130, 132]), "back": -1} if r.random() < 0.6 else {"off": 0, "back": r.randint(0, 4)})))
            pstreams[t] = p
        elif k == "pread" and pstreams:
            t = r.choice(sorted(pstreams))
            ops.append({"op": "pread", "p": r.randrange(pools), "from": t})
            if r.random() < 0.3: ops.append({"op": "pcut", "p": r.randrange(pools), "from": t})
        elif k == "parts":          # parts of a pool, in any order, and new names afterwards
            if pools >= 5: continue
            p, q = r.randrange(pools), pools
            pools += 1
            ops += [{"op": "emplace", "p": p, "s": codes(w)} for w in r.sample(NAMES, 3)]
            offs = [{"off": 0, "back": x} for x in range(4)] + [{"off": x, "back": -1} for x in (0, 2, 127, 128, 129, 130, 131)]
            parts = [dict(op="pwrite", p=p, to=x, **r.choice(offs)) for x in r.sample(range(4), r.randint(2, 4))]
            for x in parts: pstreams[x["to"]] = p
            ops += parts + [{"op": "newpool"}]
            for x in r.sample(parts, len(parts)):
                ops.append({"op": "pread", "p": q, "from": x["to"]})
                if r.random() < 0.4: ops.append({"op": "emplace", "p": q, "s": codes(r.choice(NAMES + ["new", "newer"]))})
            ops += [{"op": "emplace", "p": q, "s": codes("last")}, {"op": "pdump", "p": q}]
            if r.random() < 0.5: ops += [{"op": "setStrings", "m": mi, "p": q}, {"op": "dump", "m": mi, "full": 1}]
        elif k == "transfer":       # the whole content of a model and of its pool goes to a new model with a new pool
            if pools >= 5 or len(ms) >= 6: continue
            a, b = r.randrange(4), r.randrange(4)
            p = pools
            part = [{"op": "pwrite", "p": m.pool, "to": b, "off": r.choice([0, 128]), "back": -1}, {"op": "newpool"}, {"op": "pread", "p": p, "from": b}]
            if r.random() < 0.5:    # and then what was added since
                part += [{"op": "emplace", "p": m.pool, "s": codes(r.choice(NAMES))} for _ in range(r.randint(1, 3))]
                back = r.randint(0, 2)
                part += [{"op": "pwrite", "p": m.pool, "to": b, "off": 0, "back": back}, {"op": "pread", "p": p, "from": b}]
            ops += part + [{"op": "write", "m": mi, "to": a}, {"op": "newmodel", "p": p}, {"op": "read", "m": len(ms), "from": a}, {"op": "validate", "m": len(ms)}, {"op": "dump", "m": len(ms), "full": 2}]
            pools += 1
            pstreams[b] = m.pool
            mstreams[a] = m.copy()
            ms.append(m.copy())
            ms[-1].pool = p
        elif k == "dump":
            ops.append({"op": "dump", "m": mi, "full": r.choice([0, 0, 1, 2])})
        elif k == "pdump":
            ops.append({"op": "pdump", "p": r.randrange(pools)})
    for i in range(len(ms)):
        ops += [{"op": "validate", "m": i}, {"op": "dump", "m": i, "full": 2}]
    ops += [{"op": "pdump", "p": p} for p in range(pools)]
    return ops


BUILD = {"obj": 3, "arr": 3, "field": 8, "append": 8, "extendo": 1.5, "extenda": 1.5, "root": 2, "dump": 1, "nil": 0.3, "resolve": 0.5}
W = {
    "C17": dict(BUILD, emplace=0.5, validate=0.3, rootat=0.5),
    "C21": dict(BUILD, write=2, read=2, pwrite=2, pread=2, transfer=1.5, parts=1.5, emplace=1.5, newpool=0.5, validate=0.3, pdump=0.3, clear=0.2),
    "C22": dict(BUILD, setStrings=4, emplace=2, newpool=1, newmodel=0.5, setnull=0.3, validate=0.5, clear=0.2, write=0.3, read=0.3),
    "C23": dict(BUILD, clear=1.2, validate=1.5, dangle=1.5, touch=1.5, rootat=2, resolve=1.5, nil=1, setnull=0.2, write=0.3, read=0.5, newpool=0.3),
}



def build():
    return vt.build("store", ["store.cpp"], vt.repo_sources(), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))


PREFIX = [{"op": "newpool"}, {"op": "newpool"}, {"op": "newmodel", "p": 0}, {"op": "emplace", "p": 1, "s": [98]},
          {"op": "obj", "m": 0, "cap": 1}, {"op": "field", "m": 0, "o": 0, "s": [97], "v": {"t": "int", "n": 0, "p": i64(7)}}, {"op": "arr", "m": 0, "cap": 1}]


def framed(r, hist, every):
    """A history of the machine with looks at the state."""
    ops = list(PREFIX)
    models, written = 1, False
    for op in hist:
        if "v" in op and r.random() < 0.5 and op["v"]["t"] in ("int", "str", "dbl") and op["op"] != "root":
            op = dict(op, v=dict(op["v"], f="t"))
        ops.append(op)
        models += op["op"] == "newmodel"
        if every and "m" in op:
            ops += [{"op": "validate", "m": op["m"]}, {"op": "dump", "m": op["m"], "full": 1}]
        if op["op"] == "write" and r.random() < 0.2:
            ops.append({"op": "cut", "from": op["to"]})
        if op["op"] == "pwrite" and r.random() < 0.2:
            ops.append({"op": "pcut", "p": 1, "from": op["to"]})
    for m in range(models):
        ops += [{"op": "validate", "m": m}, {"op": "dump", "m": m, "full": 2}]
    return ops + [{"op": "pdump", "p": 0}, {"op": "pdump", "p": 1}]


def bulks(ck, r):
    """Columns and member arrays that grow over many pages."""
    res = []
    for kind in ("int", "dbl", "str"):
        for n in ck.pick([9000], [8191, 8192, 8193, 17000, 33000]):
            start = r.choice([65530, 65000, 0]) if kind == "int" else 0
            ops = [{"op": "newpool"}, {"op": "newmodel", "p": 0}, {"op": "arr", "m": 0, "cap": r.choice([0, 2, n])}, {"op": "arr", "m": 0, "cap": 2}, {"op": "obj", "m": 0, "cap": 1},
                   {"op": "append", "m": 0, "a": 0, "v": {"t": "int", "n": 0, "p": i64(2**40), "f": "v"}}, {"op": "append", "m": 0, "a": 1, "v": {"t": "str", "n": 0, "p": codes("first"), "f": "v"}},
                   {"op": "bulk", "m": 0, "a": 0, "n": n, "from": start, "kind": kind}, {"op": "append", "m": 0, "a": 0, "v": {"t": "dbl", "n": 0, "p": dbl(2.5), "f": "v"}},
                   {"op": "append", "m": 0, "a": 1, "v": {"t": "arr", "n": 0, "p": []}}, {"op": "root", "m": 0, "v": {"t": "arr", "n": 1, "p": []}}]
            if kind == "int":
                ops.append({"op": "bulk", "m": 0, "o": 0, "s": codes("k"), "n": 300, "from": 5, "kind": "int"})
            ops += [{"op": "validate", "m": 0}, {"op": "dump", "m": 0, "full": 0}, {"op": "write", "m": 0, "to": 0}, {"op": "newmodel", "p": 0}, {"op": "read", "m": 1, "from": 0}, {"op": "validate", "m": 1},
                    {"op": "dump", "m": 1, "full": 0}]
            if kind == "dbl":
                ops.append({"op": "cut", "from": 0})
            res.append(ops)
    return res


def exhausted(r):
    """String pools that are about to run out of ids."""
    n = 65534 - 128 + 1 - r.choice([0, 1, 2, 3, 4, 6, 10])
    ops = [{"op": "newpool"}, {"op": "newpool"}, {"op": "newmodel", "p": 0}, {"op": "obj", "m": 0, "cap": 1}, {"op": "obj", "m": 0, "cap": 1}]
    names = r.sample(["a", "b", "c", "dd", "Ee", "f"], r.randint(1, 6))
    for k, w in enumerate(names):
        ops.append({"op": "field", "m": 0, "o": r.randrange(2), "s": codes(w), "v": {"t": "int", "n": 0, "p": i64(k), "f": r.choice("vt")}})
    ops += [{"op": "emplace", "p": 1, "s": codes(w)} for w in r.sample(names, r.randint(0, len(names) // 2))]
    ops += [{"op": "jump", "p": 1, "s": codes("high"), "n": n}, {"op": "dump", "m": 0, "full": 0}, {"op": "setStrings", "m": 0, "p": 1}, {"op": "strings", "m": 0, "p": 0} if r.random() < 0 else {"op": "validate", "m": 0}, {"op": "dump", "m": 0, "full": 2}]
    if r.random() < 0.5:
        ops += [{"op": "field", "m": 0, "o": 0, "s": codes(w), "v": {"t": "int", "n": 0, "p": i64(1), "f": "t"}} for w in ("one", "two", "three", "four")] + [{"op": "dump", "m": 0, "full": 1}]
    if r.random() < 0.5:
        ops += [{"op": "setStrings", "m": 0, "p": 1}, {"op": "dump", "m": 0, "full": 2}, {"op": "setStrings", "m": 0, "p": 0}, {"op": "dump", "m": 0, "full": 2}]
    return ops


CFG = {"C17": "Build", "C21": "Streams", "C22": "Strings", "C23": "Clear"}


def run(ck):
    exe = build()
    r = ck.rng
    f = CFG[ck.prop]
    deeper = {"Streams": "5"}.get(f, "4")
    hists = machine.emitted(ck, "MCStore", "MCStore%s.cfg" % (f + (deeper if ck.thorough else "")), timeout=3000)
    longs = machine.emitted(ck, "MCStore", "MCStoreLong.cfg", simulate="num=%d" % ck.pick(40, 1000), extra=("-depth", "26", "-seed", str(ck.seed)))
    n = len(hists)
    hists = r.sample(hists, min(n, ck.pick(4000, 60000)))
    longs = r.sample(longs, min(len(longs), ck.pick(200, 4000)))
    ck.note("histories", {"enumerated": n, "executed": len(hists), "long": len(longs)})
    cases = [framed(r, h, i % 10 == 0) for i, h in enumerate(hists)] + [framed(r, h, False) for h in longs]
    cases += [history(r, r.choice([3, 8, 15, 30, 60]), W[ck.prop]) for _ in range(ck.pick(1000, 20000))]
    if ck.prop in ("C17", "C21"):
        cases += bulks(ck, r)
    if ck.prop == "C22":
        cases += [exhausted(r) for _ in range(ck.pick(40, 400))]
    cases = [{"ops": c} for c in cases]
    ck.log("%d histories" % len(cases))
    step = 8000
    for k in range(0, len(cases), step):
        part = cases[k:k + step]
        recs = execute(exe, part, idle=60, per=100)
        ck.validate("StoreTrace", recs, name="store", rerun=lambda i: execute(exe, [part[i]], idle=60)[0], describe=lambda i: json.dumps(part[i]), timeout=3000)
        if ck.violations:
            return
        if k == 0:
            good = [json.loads(x) for x in recs[:4000] if isinstance(x, str)]
    ck.sample(good[7])
    bind(ck, good)


def bind(ck, good):
    r = ck.rng
    bad = []

    def corrupt(f):
        for _ in range(500):
            x = json.loads(json.dumps(r.choice(good)))
            try:
                if f(x) is not False:
                    bad.append(x)
                    return
            except (StopIteration, IndexError):
                pass
    # nothing in these histories is left open by the specification
    hard = lambda x: all(s["op"]["op"] not in ("read", "pread", "setStrings") for s in x["steps"])
    def moved(x):       # up to the first model that moves to another pool
        k = next(i for i, s in enumerate(x["steps"]) if s["op"]["op"] == "setStrings")
        x["steps"] = x["steps"][:k + 1]
        o = x["steps"][k]
        return o["out"] if o["op"]["m"] == 0 and o["op"]["p"] == 1 and all(s["op"]["op"] not in ("read", "pread") for s in x["steps"]) else {"v": {"dump": []}}
    steps = lambda x, n: [s["out"] for s in x["steps"] if s["op"]["op"] == n]
    dump = lambda x: steps(x, "dump")[-1]["v"] if hard(x) else [][0]
    some = lambda l, f: next(e for e in l if f(e))
    filled = lambda x: some(dump(x)["objs"], lambda o: o["size"][0] > 1)
    corrupt(lambda x: filled(x)["kids"][0].reverse() if filled(x)["kids"][0][0] != filled(x)["kids"][0][-1] else False)
    corrupt(lambda x: filled(x)["names"][0].__setitem__(0, [120, 120]))
    corrupt(lambda x: filled(x)["ids"][0].__setitem__(0, 4))
    corrupt(lambda x: filled(x)["gets"][0]["v"].__setitem__(0, {"t": "none", "n": 0, "p": []}))
    corrupt(lambda x: filled(x)["size"].append(0))
    corrupt(lambda x: filled(x)["kids"].append([]))
    corrupt(lambda x: filled(x)["stops"].append({"k": 1, "r": 1, "s": [], "threw": False}))
    corrupt(lambda x: filled(x)["outside"].append({"t": "null", "n": 0, "p": []}))
    corrupt(lambda x: filled(x)["queries"][0]["v"][0].append({"t": "null", "n": 0, "p": []}))
    corrupt(lambda x: some(dump(x)["arrs"], lambda o: o["size"][0] > 0)["kids"][0].pop())
    corrupt(lambda x: dump(x)["roots"].append({"t": "null", "n": 0, "p": []}))
    corrupt(lambda x: dump(x)["held"].pop())
    corrupt(lambda x: steps(x, "validate")[-1]["v"].update(list=0) if hard(x) else False)
    corrupt(lambda x: steps(x, "pdump")[-1]["v"].pop() if hard(x) else False)
    if ck.prop == "C21":
        corrupt(lambda x: steps(x, "cut")[-1]["v"].append(3))
        corrupt(lambda x: steps(x, "pcut")[-1]["v"].append(3))
    if ck.prop == "C22":
        corrupt(lambda x: some([moved(x)], lambda o: len(o["v"]["dump"]) > 5)["v"]["dump"].pop() and None)
    if ck.prop == "C23":
        corrupt(lambda x: steps(x, "clear")[-1]["v"].update(fresh=0))
        corrupt(lambda x: some(steps(x, "rootat"), lambda o: o["t"] == "error").update(t="ok", v={"t": "null", "n": 0, "p": []}))
    ck.must_reject("StoreTrace", bad)
