"""C28: results and nodes keep alive what they refer to (spec/Own.tla)."""
import json
import vt, machine, c_eval

HELD = ("ast", "env", "pool", "model", "root", "vals", "copy")
SRC = """a ;; s ;; * ;; ** ;; _ ;; keys(_) ;; keys(*) ;; count(keys(_)) ;; arr(keys(_), s, 'text') ;; split('a,b,c', ',') ;; split(s, 't') ;; split(keys(_), 'a') ;; typeof * ;; 'abc' ;; greeting ;; ABC ;; s + 'x' ;; s as string ;; (* as string)
 range(1, 3) ;; range(1, 3)... ;; re('a.*') ;; re('t') == s ;; s == re('t.*') ;; select(*, 1, 2) ;; arr(a, s, _) ;; a or s ;; s or a ;; s and a ;; trace(s) ;; trace(*) ;; trace(a + 1) ;; trace(keys(_)) ;; sum(s) ;; sum(*) ;; sum(*, $sum) ;; sum(*, $sum or s)
 sum(keys(_), $sum + $val, '') ;; sum(keys(_), $val) ;; sum(*, $val) ;; sum(*, $val as string) ;; *{s} ;; *[0] ;; s[0] ;; 'text'[1] ;; b.d[1] ;; a.a.a ;; any(s) ;; arr('x', 'y') ;; probe('p', s) ;; probe('p', keys(_)) ;; probe('p', 'constant text that is long enough for the heap')
 'constant text that is long enough for the heap' ;; 'constant text that is long' + ' enough for the heap' ;; arr('constant text that is long enough for the heap', s) ;; split('constant text that is long enough for the heap', 'q') ;; 1/0 ;; a/0 ;; trace(s)/0 ;; trace(*) foo ;; null ;; nosuch
 any(keys(_) == 'a') ;; each(s) ;; keys(a) ;; keys(b) ;; s{_} ;; trace(s){_} ;; trace('constant text that is long enough for the heap', 3, 'named') ;; (s) ;; s.s ;; **{typeof _ == 'string'} ;; **.s ;; select(**, 2, 5)"""


def execute(exe, docs, cases, **kw):
    return [{"r": x["r"], "steps": []} if isinstance(x, dict) else x for x in vt.run_lines([exe, docs], [json.dumps(c) for c in cases], **kw)]


def history(r, n):
    held, swapped, ops = {"env", "pool", "model", "root"}, False, []
    while len(ops) < n:
        k = r.choice(["compile", "eval", "eval", "copy", "move", "reroot", "swap", "names", "drop", "drop", "drop", "read", "read"]) if len(ops) > 1 else ("compile", "eval")[len(ops)]
        h = r.choice(HELD) if k == "drop" else r.choice(["root", "vals", "copy"]) if k == "read" else ""
        if k == "swap" and r.random() < .6: continue
        if not {"compile": "env" in held, "eval": {"env", "ast", "root"} <= held and not swapped, "copy": "vals" in held, "move": "vals" in held, "reroot": "model" in held, "swap": "model" in held and not swapped, "names": "pool" in held}.get(k, h in held):
            if not held: break
            continue
        ops.append({"op": k, "h": h})
        if k == "compile": held.add("ast")
        if k == "eval": held.add("vals")
        if k == "copy": held.add("copy")
        if k == "move": held.add("copy"); held.discard("vals")
        if k == "reroot": held.add("root")
        if k == "drop": held.discard(h)
        swapped |= k == "swap"
    return ops


def run(ck):
    r = ck.rng
    exe = vt.build("own", ["own.cpp"], vt.repo_sources(), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=signed-integer-overflow,shift"))
    broken = vt.tlc(ck.dir, "MCOwn", "MCOwnBroken.cfg")
    if not broken.violated:
        raise vt.ToolError("MCOwn does not depend on who owns the names")
    ck.model("MCOwn", "MCOwnDeep.cfg" if ck.thorough else "MCOwn.cfg")
    hists = []
    for cfg, depth in (("MCOwnShort.cfg", 13), ("MCOwnEmit.cfg", 25)):
        hists += machine.emitted(ck, "MCOwn", cfg, simulate="num=%d" % ck.pick(300, 3000), extra=("-depth", str(depth), "-seed", str(ck.seed)))
    hists = r.sample(hists, min(len(hists), ck.pick(900, 20000)))
    docs = ck.cases_file("docs", [c_eval.table(d) for d in c_eval.DOCS])
    env = {"VT_DOCS": docs}
    hand = [h.strip() for h in SRC.replace("\n", ";;").split(";;")]
    long = "'%s'" % ("long text " * 8)
    hand += [h.replace("@", long) for h in ("@", "arr(@, s)", "@ + 'x'", "split(@, '9')", "trace(@)", "s or @", "sum(*, @)")]
    hand += ["'%s'" % ("0123456789abcdef" * 20)]
    rnd = [c for c in c_eval.random_cases(ck, ck.pick(1500, 20000), W, (1, 2, 2, 3), 0, 0, 0, maxlen=90)]
    cases = []
    # every hand-written expression: every order in which the handles may go, sampled
    for s in hand:
        for d in [1, 4] + r.sample(range(1, len(c_eval.DOCS) + 1), ck.pick(3, 12)):
            first = [h for h in HELD if h not in ("vals", "copy")]
            r.shuffle(first)
            ops = [("compile", ""), ("eval", "")] + [x for h in first for x in ([("swap", "")] if h == "model" and r.random() < .3 else []) + [("drop", h), ("read", "vals")]]
            ops += [("copy", ""), ("drop", "vals"), ("read", "copy"), ("drop", "copy")]
            cases.append({"src": s.encode("latin-1").hex(), "d": d, "ops": [{"op": o, "h": h} for o, h in ops]})
    for h in hists + [history(r, r.choice([6, 10, 20, 40])) for _ in range(ck.pick(1000, 20000))]:
        c = r.choice(rnd) if r.random() < .5 else {"src": r.choice(hand).encode("latin-1").hex(), "d": r.randint(1, len(c_eval.DOCS))}
        cases.append({"src": c["src"], "d": c["d"], "ops": h})
    # expressions that fail have no results: what would use those is left out
    probing = execute(exe, docs, [{"src": c["src"], "d": c["d"], "ops": [{"op": "compile", "h": ""}, {"op": "eval", "h": ""}]} for c in cases], idle=10)
    keep = []
    for c, p in zip(cases, probing):
        p = json.loads(p) if isinstance(p, str) else p
        if p["r"] == "hang" or any(len(s["vs"]) > 300 for s in p["steps"]):
            continue                      # huge ranges
        if p["r"] == "ok" and not all(s["ok"] for s in p["steps"]):
            c = dict(c, ops=[o for o in c["ops"] if o["op"] not in ("copy", "move") and o["h"] not in ("vals", "copy")])
        keep.append(c)
    ck.log("%d histories (%d expressions hang or yield too much)" % (len(keep), len(cases) - len(keep)))
    recs = execute(exe, docs, keep, idle=20)
    ck.validate("OwnTrace", recs, name="histories", env=env, rerun=lambda i: execute(exe, docs, [keep[i]], idle=20)[0],
                describe=lambda i: "%r on document %d: " % (bytes.fromhex(keep[i]["src"]), keep[i]["d"]) + " ".join((o["op"] + " " + o["h"]).strip() for o in keep[i]["ops"]), timeout=3000)
    good = [json.loads(x) for x in recs if isinstance(x, str)]
    ck.note("histories", {"of_the_model": len(hists), "executed": len(keep), "steps": sum(len(g["steps"]) for g in good if "steps" in g)})
    if not ck.violations:
        binding(ck, [g for g in good if g.get("r") == "ok"], env)


W = {"leaf": {"field": 6, "self": 2, "star": 4, "wild": 2, "int": 1, "const": 2, "str": 3}, "expr": {"leaf": 1, "call": 6, "path": 3, "bin": 3, "post": 1, "pre": .5, "cast": 1, "word": .2},
     "fn": {"any": 1, "each": 1, "count": 1, "arr": 3, "select": 2, "sum": 4, "trace": 3, "probe": 2, "range": .5, "re": .5, "split": 2, "keys": 5}}


def binding(ck, good, env):
    r, bad = ck.rng, []

    def corrupt(pred, f, n=2):
        pool = [(g, i) for g in good for i, s in enumerate(g["steps"]) if pred(s)]
        if not pool:
            raise vt.ToolError("no record to corrupt")
        for g, i in r.sample(pool, min(n, len(pool))):
            x = json.loads(json.dumps(g))
            f(x["steps"][i])
            bad.append(x)
    corrupt(lambda s: s["model"], lambda s: s.update(model=False))
    corrupt(lambda s: not s["model"], lambda s: s.update(model=True))
    corrupt(lambda s: s["pool"], lambda s: s.update(pool=False))
    corrupt(lambda s: not s["pool"], lambda s: s.update(pool=True))
    corrupt(lambda s: s["op"]["op"] == "read", lambda s: s.update(tx="other"))
    good = [g for g in good if bytes(g["src"]) in (b"s", b"a", b"*", b"keys(_)", b"'abc'")]
    corrupt(lambda s: s["op"]["op"] == "eval" and s["vs"], lambda s: s["vs"].pop())
    corrupt(lambda s: s["op"]["op"] == "eval" and s["vs"], lambda s: s["vs"][0].update(t="other"))
    corrupt(lambda s: s["op"]["op"] == "eval", lambda s: s.update(ok=not s["ok"]))
    ck.must_reject("OwnTrace", bad, env=env)
