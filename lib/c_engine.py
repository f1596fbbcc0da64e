"""C16: repeated, interleaved, nested and concurrent evaluation."""
import json, os
import vt, c_eval
from c_store import COOP_LINKS, TSAN, joined

# (documents whose names are spelled in the same way; the pool is shared)
USABLE = [i for i in range(1, len(c_eval.DOCS) + 1) if i != 7]
WEIGHTS = {"leaf": {"field": 8, "self": 1, "star": 2, "wild": 1, "int": 2, "str": 2, "const": 2, "flt": .5, "re": .5},
           "expr": {"leaf": 1, "path": 6, "call": 5, "bin": 3, "post": 2, "cast": 1, "pre": .5},
           "fn": {"trace": 3, "probe": 2, "any": 1, "each": 1, "count": 1, "arr": 2, "sum": 2, "split": 2, "re": 1, "keys": 1, "select": 1, "range": 1}}
FIXED = ["greeting", "'abc'", "'a' + 'b'", "arr('x','y',greeting)", "re'a.*'", "re('t.*')", "s =~ re'a.*'", "s + greeting", "split('a,b,c', ',')", "split(s, ',')...", "trace('x' + s)", "trace(**, -1, 'T')", "trace(*, 2, 'L')",
         "sum(a.*)", "sum(arr(1,2,3), $sum + $val)", "keys(_)", "keys(**)", "a.zz", "zz.a", "newname", "a.newname", "**.newname", "a[null]", "*[1.5]", "trace(a[null])", "range(1,5)...", "arr(1,2,3)[0]", "a['b']", "b['newname']",
         "any(arr(false, a, probe(1, b)))", "probe(7, a, b)", "**.a", "*.*", "count(**)", "typeof **", "** as string", "_ as string", "'x' as string", "greeting as string", "Ten + 1", "select(**, 1, 2)", "a{b}", "**{a}", "A1", "B", "ABC == s", "greeting == 'hello'", "re'h.*' == greeting", "#s", "#**", "arr.a", "arr.*.a"]


def sources(ck, n):
    w = c_eval.random_cases(ck, n, WEIGHTS, (1, 2, 2, 3), 0, 0, 0, maxlen=90)
    res = [(bytes.fromhex(c["src"]).decode("latin-1")) for c in w] + FIXED
    return [s for s in res if not c_eval.huge(s, c_eval.NUMDOC)]


def src(s, r):
    return {"src": s.encode("latin-1").hex(), "any": r.random() < .15, "wild": r.random() < .1}


def history(r, pool, n):
    """A history on one thread: few expressions and documents, evaluated over and over."""
    mine = [src(r.choice(pool), r) for _ in range(r.randint(1, 4))]
    docs = r.sample(USABLE, r.randint(1, 3))
    ops, have, slots, tried = [], [docs[0]], [], {}
    ops.append({"op": "doc", "d": docs[0]})
    while len(ops) < n:
        k = r.random()
        if k < .1 and len(have) < len(docs):
            have.append(docs[len(have)])
            ops.append({"op": "doc", "d": have[-1]})
        elif k < .25 or not slots:
            s = r.randint(1, 4)
            ops.append(dict(r.choice(mine), op="compile", s=s))
            if s not in slots:
                slots.append(s)
        elif k < .3 and len(slots) > 1:
            s = r.choice(slots)
            slots.remove(s)
            ops.append({"op": "drop", "s": s})
        elif k < .5:
            ops.append({"op": "nest", "s": r.choice(slots), "d": r.choice(have), "max": r.choice([0, 0, 0, 2, 3]), "k": r.choice([1, 1, 2, 3]), "s2": r.choice(slots), "d2": r.choice(have), "max2": r.choice([0, 0, 1])})
        else:
            ops.append({"op": "eval", "s": r.choice(slots), "d": r.choice(have), "max": r.choice([0, 0, 0, 0, 1, 2])})
    return {"ops": ops}


def twice(r, s, n):
    """One expression on every document in turn, and again, in two slots."""
    docs = r.sample(USABLE, n)
    e = dict(src(s, r), wild=False)
    ops = [{"op": "doc", "d": docs[0]}, dict(e, op="compile", s=1), {"op": "eval", "s": 1, "d": docs[0], "max": 0}]
    ops += [{"op": "doc", "d": d} for d in docs[1:]] + [dict(e, op="compile", s=2)]
    for _ in range(2):
        for d in docs:
            ops += [{"op": "eval", "s": s, "d": d, "max": 0} for s in (1, 2)]
    return {"ops": ops}


def program(r, pool, n, length, names):
    exprs = [dict(src(r.choice(pool), r), any=r.random() < .1, wild=False) for _ in range(r.randint(1, 3))]
    docs = r.sample(USABLE, r.randint(1, 2))
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(r.randint(1, length)):
            k = r.random()
            mx = r.choice([0, 0, 0, 1, 2])
            if k < .65:
                ops.append({"op": "eval", "e": r.randint(1, len(exprs)), "d": r.choice(docs), "max": mx})
            elif k < .8:
                ops.append(dict(src(r.choice(pool), r), op="own", d=r.choice(docs), max=mx))
            elif k < .9 and names:
                ops.append({"op": "load", "e": r.randint(1, len(exprs)), "d": r.choice(USABLE), "max": mx})
            elif names:
                ops.append({"op": "names", "names": r.sample(["newname", "zz", "other", "k9", "unseen"], 2)})
            else:
                ops.append({"op": "eval", "e": 1, "d": docs[0], "max": mx})
        threads.append(ops)
    return {"docs": docs, "exprs": exprs, "threads": threads, "seed": r.randrange(2 ** 31)}


def run(ck):
    ck.model("MCEngine", "MCEngine.cfg")
    ck.model("MCEngine", "MCEngine3.cfg")
    for cfg in ("MCEngineNode.cfg", "MCEngineTorn.cfg", "MCEngineWarn.cfg"):
        if not vt.tlc(ck.dir, "MCEngine", cfg).violated:
            raise vt.ToolError("%s: the specification does not tell a broken way of caching from a good one" % cfg)
    repo = vt.repo_sources()
    asan, coop, tsan = vt.build_many([
        ("engine", ["engine.cpp"], repo, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=signed-integer-overflow,shift"), COOP_LINKS),
        ("engine-coop", ["engine.cpp"], repo, ("-O1", "-DCOOP"), COOP_LINKS),
        ("engine-tsan", ["engine.cpp"], repo, ("-O1", "-DCOOP", "-fsanitize=thread"), COOP_LINKS)])
    r = ck.rng
    docs = ck.cases_file("docs", [c_eval.table(d) for d in c_eval.DOCS])
    env = {"VT_DOCS": docs}
    everything = sources(ck, ck.pick(3000, 20000))
    # most expressions are ones that do not fail: after an error, warnings and traces are not compared
    probing = [{"light": True, "ops": [{"op": "doc", "d": d} for d in USABLE] + [dict(src(s, r), any=False, wild=False, op="compile", s=1)] + [{"op": "eval", "s": 1, "d": d, "max": 0} for d in USABLE]} for s in everything]
    calm = [s for s, x in zip(everything, vt.run_lines([coop, docs], [json.dumps(c) for c in probing], idle=30))
            if isinstance(x, str) and '"st":"ok"' in x and '{"k":"e"}' not in x]
    ck.log("%d of %d expressions never fail" % (len(calm), len(everything)))
    pool = calm
    # --- one thread
    cases = [history(r, everything if i % 5 == 0 else calm, r.randint(8, 24)) for i in range(ck.pick(1500, 20000))]
    cases += [twice(r, s, r.choice([2, 3])) for s in FIXED]
    def execute(exe, cs, **kw):
        res = vt.run_lines([exe, docs], [json.dumps(c) for c in cs], **kw)
        return [{"r": x["r"], "steps": [], "w": [], "tr": []} if isinstance(x, dict) else x for x in res]
    recs = execute(asan, cases, idle=30)
    ck.log("%d histories executed" % len(cases))
    ck.validate("EngineTrace", recs, name="histories", env=env, rerun=lambda i: execute(asan, [cases[i]], idle=30)[0], describe=lambda i: json.dumps(cases[i]), timeout=3000)
    if ck.violations:
        return
    good = [json.loads(x) for x in recs[:500] if isinstance(x, str)]
    ck.sample({"history": cases[0], "record": good[0]["steps"][:4]})
    # --- threads that change over at locks, between operations and at results
    def conc(exe, cs, **kw):
        res = vt.run_lines([exe, docs], [json.dumps(c) for c in cs], **kw)
        outs = joined(cs, [{"r": x["r"], "outcomes": []} if isinstance(x, dict) else x for x in res])
        for o in outs:      # (as recorded)
            o["exprs"] = [{"src": list(bytes.fromhex(e["src"])), "any": e["any"], "wild": e["wild"]} for e in o["exprs"]]
            o.pop("threads")
        return outs
    progs = [valid for valid in (dict(program(r, pool, r.choice([2, 2, 3]), 3, True), random=ck.pick(30, 200), dfs=ck.pick(10, 100)) for _ in range(ck.pick(250, 3000)))]
    progs = compiling(ck, asan, docs, progs)
    outs = conc(coop, progs, idle=120, per=4)
    ck.note("schedules", sum(o["runs"] for o in outs))
    ck.log("%d programs, %d schedules, %d outcomes" % (len(progs), sum(o["runs"] for o in outs), sum(len(o["outcomes"]) for o in outs)))
    again = lambda exe, cs, **kw: lambda i: next((o for o in (conc(exe, [cs[i]], **kw)[0] for _ in range(6)) if o["r"] != "ok" or len(o["outcomes"]) > 1), None) or conc(exe, [cs[i]], **kw)[0]
    ck.validate("EngineTrace", outs, name="schedules", env=env, rerun=lambda i: conc(coop, [progs[i]], idle=120)[0], describe=lambda i: json.dumps(progs[i]) + " -> " + json.dumps(outs[i])[:2500], timeout=3000)
    if ck.violations:
        return
    ck.sample({"program": progs[0], "outcome": outs[0]["outcomes"][:1]})
    # --- the steps of a schedule are atomic only if the threads do not race: real threads with a race detector
    free = [dict(program(r, pool, r.choice([2, 3, 4]), 6, r.random() < .5), free=ck.pick(12, 60)) for _ in range(ck.pick(120, 1200))]
    free = compiling(ck, asan, docs, free)
    for exe, e, tag in ((tsan, TSAN, "race"), (coop, None, "free")):
        outs2 = conc(exe, free, idle=120, env=e, per=4)
        ck.validate("EngineTrace", outs2, name="threads-" + tag, env=env, rerun=again(exe, free, idle=120, env=e), describe=lambda i: json.dumps(free[i]) + " -> " + json.dumps(outs2[i])[:2500], timeout=3000)
        if ck.violations:
            return
    # --- binding
    bad = []
    def corrupt(src, f):
        for _ in range(600):
            x = json.loads(json.dumps(r.choice(src)))
            try:
                if f(x) is not False:
                    bad.append(x)
                    return
            except (StopIteration, IndexError, KeyError):
                pass
        raise vt.ToolError("no record to corrupt")
    step = lambda x, p: next(s for s in x["steps"] if p(s))
    ran = lambda s: s["op"] == "eval" and s["have"] and s["run"] and s["run"][-1]["k"] == "v"
    corrupt(good, lambda x: step(x, ran)["run"].pop())
    corrupt(good, lambda x: step(x, lambda s: ran(s) and s["run"][0]["v"]["t"] == "int")["run"][0]["v"]["p"].__setitem__(0, 77))
    corrupt(good, lambda x: step(x, ran).update(same=False))
    def rehash(x):
        seen = set()
        for s in x["steps"]:
            if ran(s):
                k = (s["s"], s["d"], s["max"])
                if k in seen:
                    s["h"] = "1"
                    return
                seen.add(k)
            elif s["op"] in ("compile", "drop"):
                seen.clear()
        return False
    corrupt(good, rehash)
    corrupt(good, lambda x: step(x, lambda s: s["op"] == "compile" and s["st"] == "ok")["show"].append(65))
    corrupt(good, lambda x: step(x, lambda s: s["op"] == "nest" and s["did"] and s["run2"] and s["run2"][-1]["k"] == "v")["run2"].pop())
    clean = [x for x in good if not any(i["k"] == "e" for s in x["steps"] if s["op"] in ("eval", "nest") for q in ("run", "run2") if q in s for i in s[q]) and not any(s["op"] == "compile" and s["st"] == "err" for s in x["steps"])]
    corrupt(clean, lambda x: x["w"].pop())
    corrupt(clean, lambda x: x["w"].append({"m": [1], "d": [2]}))
    corrupt(clean, lambda x: x["tr"][0].update(calls=x["tr"][0]["calls"] + 1))
    one = [o for o in outs if o["outcomes"]]
    def outcome(x):
        x["outcomes"] = x["outcomes"][:1]
        return x["outcomes"][0]
    corrupt(one, lambda x: outcome(x).update(same=False))
    corrupt(one, lambda x: next(q for t in outcome(x)["ops"] for q in t if q.get("run") and q["run"][-1]["k"] == "v")["run"].pop())
    noerr = [o for o in one if not any(q.get("st") == "err" or any(i["k"] == "e" for i in q.get("run", [])) for t in o["outcomes"][0]["ops"] for q in t)]
    corrupt(noerr, lambda x: outcome(x)["w"].pop())
    corrupt(noerr, lambda x: outcome(x)["tr"][0].update(calls=99))
    ck.must_reject("EngineTrace", bad, env=env)


def compiling(ck, exe, docs, progs):
    """Those whose shared expressions compile."""
    cs = [{"ops": [dict(e, op="compile", s=1) for e in p["exprs"]]} for p in progs]
    res = vt.run_lines([exe, docs], [json.dumps(c) for c in cs], idle=30)
    return [p for p, x in zip(progs, res) if isinstance(x, dict) or all(s["st"] == "ok" for s in json.loads(x)["steps"])]
