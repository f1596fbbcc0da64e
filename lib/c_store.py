"""C18 - C20: array arena and string pool."""
import json, random
import vt, machine

COOP_LINKS = ("-lfmt", "-lpthread") + tuple("-Wl,--wrap=pthread_%s" % n for n in (
    "rwlock_rdlock rwlock_wrlock rwlock_tryrdlock rwlock_trywrlock rwlock_unlock mutex_lock mutex_trylock mutex_unlock".split()))
TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"}


def execute(exe, cases, **kw):
    out = []
    for x in vt.run_lines([exe], [json.dumps(c) for c in cases], **kw):
        out.append({"r": x["r"], "steps": [], "outcomes": []} if isinstance(x, dict) else x)
    return out


def joined(cases, outs):
    """Concurrent programs together with what the runs showed."""
    res = []
    for c, o in zip(cases, outs):
        o = json.loads(o) if isinstance(o, str) else o
        res.append(dict({k: v for k, v in c.items() if k not in ("schedules", "dfs", "free")}, r=o["r"], outcomes=o["outcomes"], runs=o.get("runs", 0)))
    return res


# ------------------------------------------------------------------ C18
ARENA_SRC = ["src/exception-handler.cpp"]


def with_dumps(hist, r, every):
    res = []
    arrays = {}
    for op in hist:
        res.append(op)
        if op["op"] == "new":
            arrays[len(arrays)] = 0
        elif op["op"] in ("push", "emplace"):
            arrays[op["a"]] += 1
        elif op["op"] == "fill":
            arrays[op["a"]] += op["n"]
        elif op["op"] == "clear":
            arrays = {}
        if every:
            res.append({"op": "dump"})
    if not every:
        res.append({"op": "dump"})
    res.append({"op": "refs"})
    res.append({"op": "count"})
    for a, n in arrays.items():
        res.append({"op": "size", "a": a})
        for i in {0, n - 1, n, n + 1, 2 * n, 2 * n + 1, 4 * n + 3, 2**31, 2**62}:
            if i >= 0:
                res.append({"op": "at", "a": a, "i": i} if i < 2**31 else {"op": "at", "a": a, "i": 2**31 - 1})
                if i < 2**31:
                    res.append({"op": "cat", "a": a, "i": i})
        for k in {1, 2, n, n + 1} | ({r.randint(1, n)} if n else set()):
            if k > 0:
                res.append({"op": "iter", "a": a, "stop": k})
    return res


def big_history(r, kinds):
    """Long histories over many arrays, with thousands of elements and reads in between."""
    ops, sizes, refs = [], [], False
    for _ in range(kinds):
        k = r.random()
        v = r.randint(-1000, 10**6)
        if sum(sizes) > 400 and 0.12 <= k < 0.6:
            k = 0.12 + k / 2 + 0.5
        if k < 0.12 or not sizes:
            ops.append({"op": "new", "cap": r.choice([0, 0, 1, 2, 3, 4, 8, 16, 100])})
            sizes.append(0)
            continue
        a = r.randrange(len(sizes)) if r.random() < 0.6 else len(sizes) - 1
        if k < 0.5:
            ops.append({"op": r.choice(["push", "emplace"]), "a": a, "v": v})
            sizes[a] += 1
        elif k < 0.6:
            n = r.choice([1, 3, 7, 20, 90])
            ops.append({"op": "fill", "a": a, "n": n, "v": v})
            sizes[a] += n
        elif k < 0.75:
            ops.append({"op": r.choice(["at", "cat"]), "a": a, "i": r.choice([0, sizes[a], max(0, sizes[a] - 1), r.randint(0, 2 * sizes[a] + 2)])})
        elif k < 0.8:
            ops.append({"op": "set", "a": a, "i": r.randint(0, sizes[a]), "v": v})
        elif k < 0.86:
            ops.append({"op": "iter", "a": a, "stop": r.randint(1, sizes[a] + 2)})
        elif k < 0.9:
            ops.append({"op": "size", "a": a})
        elif k < 0.93:
            ops.append({"op": "refs"})
        elif k < 0.95:
            ops.append({"op": "shrink"})
        elif k < 0.955:
            ops.append({"op": "clear"})
            sizes = []
        elif k < 0.96 and sum(sizes) < 150:
            ops.append({"op": "dump"})
    return ops


def c18(ck):
    src = [vt.os.path.join(vt.REPO, s) for s in ARENA_SRC]
    plain, safe, tsan = vt.build_many([
        ("arena", ["arena.cpp"], src, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), ("-lpthread",)),
        ("arena-safe", ["arena.cpp"], src, ("-O1", "-DARRAY_ARENA_THREAD_SAFE", "-DCOOP"), COOP_LINKS[1:]),
        ("arena-tsan", ["arena.cpp"], src, ("-O1", "-DARRAY_ARENA_THREAD_SAFE", "-DCOOP", "-fsanitize=thread"), COOP_LINKS[1:])])
    r = ck.rng
    hists = machine.emitted(ck, "MCArena", "MCArena7.cfg" if ck.thorough else "MCArena.cfg")
    longs = machine.emitted(ck, "MCArena", "MCArenaLong.cfg", simulate="num=%d" % ck.pick(150, 2000), extra=("-depth", "41", "-seed", str(ck.seed)))
    longs = r.sample(longs, min(len(longs), ck.pick(150, 1500)))
    if not ck.thorough:
        hists = r.sample(hists, min(len(hists), 6000))
    cases = [{"ops": with_dumps(h, r, i % 16 == 0)} for i, h in enumerate(hists)]
    cases += [{"ops": with_dumps(h, r, i % 8 == 0)} for i, h in enumerate(longs)]
    for _ in range(ck.pick(60, 600)):
        cases.append({"ops": with_dumps(big_history(r, r.randint(20, 400)), r, False)})
    ck.log("%d histories" % len(cases))
    for name, exe in (("plain", plain), ("thread-safe", safe)):
        recs = execute(exe, cases)
        ck.validate("ArenaTrace", recs, name="arena-" + name, rerun=lambda i: execute(exe, [cases[i]])[0],
                    describe=lambda i: name + " build: " + json.dumps(cases[i]))
        if ck.violations:
            return
        if name == "plain":
            ck.sample(json.loads(recs[5]))
            good = [json.loads(x) for x in recs[:400] if isinstance(x, str)]
    # --- concurrent
    new = lambda c: {"op": "new", "cap": c}
    push = lambda a, v, e=False: {"op": "emplace" if e else "push", "a": a, "v": v}
    progs = []
    sched = machine.emitted(ck, "ArenaConc", "MCArenaConc.cfg")
    progs.append({"init": [new(1), new(1)], "threads": [[push(t, 10 * (t + 1) + k, k == 1) for k in range(3)] for t in (0, 1)],
                  "schedules": [[0, 1] + s for s in sched], "dfs": ck.pick(1500, 20000)})
    if ck.thorough:
        sched3 = machine.emitted(ck, "ArenaConc", "MCArenaConc3.cfg")
        progs.append({"init": [new(1)] * 3, "threads": [[push(t, 10 * (t + 1) + k) for k in range(2)] for t in (0, 1, 2)],
                      "schedules": [[0, 1, 2] + s for s in r.sample(sched3, 60000)]})
    for _ in range(ck.pick(25, 200)):
        n = r.choice([2, 2, 3])
        caps = [r.choice([0, 0, 1, 2, 3]) for _ in range(n)]
        fill = [r.choice([0, 1, 2, 5]) for _ in range(n)]
        init = [new(c) for c in caps] + [{"op": "fill", "a": t, "n": fill[t], "v": 500 * (t + 1)} for t in range(n) if fill[t]]
        threads = []
        for t in range(n):
            ops, size = [], fill[t]
            for k in range(r.randint(1, 3)):
                x = r.random()
                if x < 0.65:
                    ops.append(push(t, 10 * (t + 1) + k, r.random() < 0.5)); size += 1
                elif x < 0.75:
                    ops.append(new(r.choice([0, 2])))
                    ops[-1]["a"] = 0
                elif x < 0.88:
                    ops.append({"op": "at", "a": t, "i": r.randint(0, size)})
                else:
                    ops.append({"op": "size", "a": t})
            threads.append(ops)
        progs.append({"init": init, "threads": threads, "dfs": ck.pick(1500, 20000)})
    outs = joined(progs, execute(safe, progs, idle=120, per=1))
    ck.note("schedules_replayed", sum(o["runs"] for o in outs))
    ck.validate("ArenaConcTrace", outs, name="arena-schedules", rerun=lambda i: joined([progs[i]], execute(safe, [progs[i]], idle=120, per=1))[0])
    if ck.violations:
        return
    # the steps of the specification are atomic only if no two threads touch the same memory without a lock
    free = []
    for _ in range(ck.pick(8, 40)):
        n = r.choice([2, 3, 4])
        free.append({"init": [new(r.choice([0, 1, 4])) for _ in range(n)], "free": ck.pick(10, 40),
                     "threads": [[op for k in range(25) for op in ([push(t, k, k % 2 == 0)] + ([{"op": "at", "a": t, "i": k}] if k % 3 == 0 else [])
                                                                  + ([dict(new(1), a=0)] if k % 9 == 0 else []) + ([{"op": "size", "a": t}] if k % 5 == 0 else []))] for t in range(n)]})
    outs = joined(free, execute(tsan, free, idle=120, per=1, env=TSAN))
    ck.validate("ArenaConcTrace", outs, name="arena-race", rerun=lambda i: next((o for o in (joined([free[i]], execute(tsan, [free[i]], idle=120, per=1, env=TSAN))[0] for _ in range(5)) if o["r"] != "ok"), outs[i]))
    if ck.violations:
        return
    # --- binding
    bad = []
    def corrupt(f):
        for _ in range(200):
            x = json.loads(json.dumps(r.choice(good)))
            try:
                if f(x) is not False:
                    bad.append(x)
                    return
            except StopIteration:
                pass
    dump = lambda x: next(s for s in x["steps"] if s["op"]["op"] == "dump" and any(a["size"] > 1 for a in s["out"]["dump"]["arrays"]))["out"]["dump"]
    arr = lambda x: next(a for a in dump(x)["arrays"] if a["size"] > 1)
    corrupt(lambda x: arr(x)["at"].reverse())
    corrupt(lambda x: arr(x)["it"].pop())
    corrupt(lambda x: arr(x).update(size=1))
    corrupt(lambda x: arr(x)["itx"][1].__setitem__(0, 0))
    corrupt(lambda x: arr(x)["be"].append(0))
    corrupt(lambda x: dump(x)["all"].pop())
    corrupt(lambda x: next(s for s in x["steps"] if s["out"]["t"] == "out_of_range")["out"].update(t="ok", v=[0]))
    corrupt(lambda x: next(s for s in x["steps"] if s["op"]["op"] == "refs" and s["out"]["v"])["out"]["v"].__setitem__(0, -7))
    corrupt(lambda x: next(s for s in x["steps"] if s["op"]["op"] == "iter" and s["out"]["v"])["out"]["v"].pop())
    ck.must_reject("ArenaTrace", bad)


# ------------------------------------------------------------------ C19, C20
POOL_SRC = ["src/model/string-pool.cpp", "src/exception-handler.cpp"]
codes = lambda t: [c for c in (t if isinstance(t, bytes) else t.encode())]
WORDS = ["a", "A", "aB", "Ab", "ab", "name", "Name", "NAME", "x", "", "$sum", "$VAL", "$Idx", "\u00e4", "\u00c4", b"\xff", b"\xdf", "a b", "@[`{", "@", "`", "[", "{", b"a\0b", b"a\0c", b"a\0B",
         "long" * 40, "LONG" * 40, "long" * 40 + "X"]


def pool_history(r, n):
    """A long history over four pools and streams."""
    ops = []
    words = r.sample(WORDS, r.randint(2, len(WORDS))) + ["w%d" % k for k in range(r.randint(0, 6))]
    static = 4
    written = set()
    for _ in range(n):
        p, x, w = r.randrange(4) if r.random() < 0.4 else r.randrange(2), r.random(), codes(r.choice(words))
        if x < 0.45:
            ops.append({"op": "emplace", "p": p, "s": w})
        elif x < 0.55:
            ops.append({"op": "get", "p": p, "s": w})
        elif x < 0.6:
            ops.append({"op": "static", "p": p, "id": static, "s": codes("static%d" % static)})
            static += r.randint(1, 3)
            if static > 120:
                static = 4
                break
        elif x < 0.65:
            ops.append({"op": "copy", "p": p, "from": r.choice([q for q in range(4) if q != p])})
        elif x < 0.67:
            ops.append({"op": "new", "p": p})
        elif x < 0.77:
            to = r.randrange(4)
            written.add(to)
            if r.random() < 0.5:
                ops.append({"op": "write", "p": p, "to": to, "off": r.choice([0, 1, 2, 3, 4, 127, 128, 129, 130, 131, 133]), "back": -1})
            else:
                ops.append({"op": "write", "p": p, "to": to, "off": 0, "back": r.randint(0, 5)})
        elif x < 0.87 and written:
            ops.append({"op": "read", "p": p, "from": r.choice(sorted(written))})
        elif x < 0.92:
            ops.append({"op": "eq", "p": p, "q": r.randrange(4)})
        elif x < 0.95:
            ops.append({"op": "stats", "p": p})
        else:
            ops.append({"op": "dump", "p": p})
    return ops


def pool_end(r, hist, every):
    res = []
    for op in hist:
        res.append(op)
        if every and op["op"] != "get":
            res.append({"op": "stats", "p": op["p"]})
            res.append({"op": "dump", "p": op["p"]})
    for p in range(4):
        res.append({"op": "stats", "p": p})
        res.append({"op": "dump", "p": p})
    res += [{"op": "eq", "p": p, "q": q} for p in range(4) for q in range(4) if r.random() < 0.5]
    for t in sorted({op["to"] for op in hist if op["op"] == "write"}):
        if r.random() < 0.3:
            res.append({"op": "cut", "p": r.randrange(4), "from": t})
    for w in r.sample(WORDS, 3):
        res.append({"op": "get", "p": r.randrange(4), "s": codes(w)})
    res.append({"op": "emplace", "p": r.randrange(2), "s": codes("zz")})
    res.append({"op": "dump", "p": res[-1]["p"]})
    return res


def c19(ck):
    src = [vt.os.path.join(vt.REPO, s) for s in POOL_SRC]
    exe = vt.build("names", ["names.cpp"], src, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), COOP_LINKS)
    r = ck.rng
    hists = machine.emitted(ck, "MCNames", "MCNames5.cfg" if ck.thorough else "MCNames.cfg")
    rich = machine.emitted(ck, "MCNames", "MCNamesRich.cfg")
    longs = machine.emitted(ck, "MCNames", "MCNamesLong.cfg", simulate="num=%d" % ck.pick(60, 1500), extra=("-depth", "31", "-seed", str(ck.seed)))
    if len(hists) > ck.pick(6000, 300000):
        hists = r.sample(hists, ck.pick(6000, 300000))
    rich = r.sample(rich, min(len(rich), ck.pick(4000, 60000)))
    longs = r.sample(longs, min(len(longs), ck.pick(300, 6000)))
    cases = [pool_end(r, h, i % 8 == 0) for i, h in enumerate(hists + rich)]
    cases += [pool_end(r, h, i % 4 == 0) for i, h in enumerate(longs)]
    cases += [pool_end(r, pool_history(r, r.randint(5, 60)), i % 4 == 0) for i in range(ck.pick(600, 12000))]
    for op in ({"n": 70000}, {"n": 65407}, {"n": 65406}, {"n": 65408}):       # as many names as there are ids, and more
        for pre in ([], pool_history(r, 20)):
            if ck.thorough or not pre or op["n"] == 70000:
                cases.append(pre + [{"op": "dump", "p": 0}, dict(op, op="fill", p=0, s=codes("Fill")), {"op": "dump", "p": 1}])
    for _ in range(ck.pick(20, 200)):
        cases.append(pool_history(r, 20) + [{"op": "fill", "p": r.randrange(2), "s": codes("f"), "n": r.choice([1, 50, 500, 3000])}])
    cases = [{"ops": c} for c in cases]
    ck.log("%d histories" % len(cases))
    recs = execute(exe, cases, idle=60)
    again = lambda i: execute(exe, [cases[i]], idle=60)[0]
    ck.validate("NamesTrace", recs, name="names", rerun=again, describe=lambda i: json.dumps(cases[i]), timeout=3000)
    if ck.violations:
        return
    ck.sample(json.loads(recs[5]))
    good = [json.loads(x) for x in recs[:3000] if isinstance(x, str)]
    bad = []
    def corrupt(f):
        for _ in range(400):
            x = json.loads(json.dumps(r.choice(good)))
            try:
                if f(x) is not False:
                    bad.append(x)
                    return
            except (StopIteration, IndexError):
                pass
    def alive(x):         # steps before anything that may have been refused
        for s in x["steps"]:
            if s["out"]["t"] != "ok":
                return
            yield s
    last = lambda x, n: [s for s in alive(x) if s["op"]["op"] == n][-1]["out"]
    corrupt(lambda x: last(x, "dump")["v"].pop())
    corrupt(lambda x: last(x, "dump")["v"][-1].update(get=0) if last(x, "dump")["v"][-1]["id"] > 127 else False)
    corrupt(lambda x: last(x, "dump")["v"][-1].update(s=[1, 2]))
    corrupt(lambda x: last(x, "stats")["v"].update(size=last(x, "stats")["v"]["size"] + 1))
    corrupt(lambda x: last(x, "stats")["v"].update(bytes=last(x, "stats")["v"]["bytes"] + 1))
    corrupt(lambda x: last(x, "stats")["v"].update(highest=last(x, "stats")["v"]["highest"] + 1))
    corrupt(lambda x: last(x, "eq").update(v=1 - last(x, "eq")["v"]))
    corrupt(lambda x: last(x, "cut")["v"].append(3))
    corrupt(lambda x: last(x, "get").update(v=last(x, "get")["v"] + 1))
    ck.must_reject("NamesTrace", bad)


def pool_program(r):
    """A small concurrent program: names in different letter cases, on one or two pools."""
    words = ["x", "X", "y", "xY", "Xy"]
    init = [{"op": "emplace", "p": r.randrange(2), "s": codes(w)} for w in r.sample(["x", "old", "Y"], r.randint(0, 2))]
    threads = []
    n = r.choice([2, 2, 2, 3])
    for t in range(n):
        ops = []
        for _ in range(r.randint(1, 3 if n == 2 else 2)):
            x, p = r.random(), 0 if r.random() < 0.85 else 1
            if x < 0.5:
                ops.append({"op": "emplace", "p": p, "s": codes(r.choice(words))})
                if r.random() < 0.3:
                    ops.append({"op": "resolvelast", "p": p})
            elif x < 0.6:
                ops.append({"op": "get", "p": p, "s": codes(r.choice(words))})
            elif x < 0.7:
                ops.append({"op": "resolve", "p": p, "id": r.choice([128, 129, 130])})
            elif x < 0.8:
                ops.append({"op": r.choice(["size", "bytes", "highest"]), "p": p})
            elif x < 0.88:
                ops.append({"op": "eq", "p": p, "q": 1 - p})
            elif x < 0.94:
                ops.append({"op": "copy", "p": p})
            else:
                ops.append({"op": "write", "p": p, "off": 128})
        threads.append(ops)
    return {"init": init, "threads": threads}


def c20(ck):
    src = [vt.os.path.join(vt.REPO, s) for s in POOL_SRC]
    safe, tsan = vt.build_many([
        ("names-coop", ["names.cpp"], src, ("-O1", "-DCOOP"), COOP_LINKS),
        ("names-tsan", ["names.cpp"], src, ("-O1", "-DCOOP", "-fsanitize=thread"), COOP_LINKS)])
    r = ck.rng
    em = lambda p, s: {"op": "emplace", "p": p, "s": codes(s)}
    # the locking protocol of emplace: verified, and its schedules replayed
    two, three = machine.emitted(ck, "NamesConc", "MCNamesConc2.cfg"), machine.emitted(ck, "NamesConc", "MCNamesConc3.cfg")
    prog = [[em(0, "x"), em(0, "y")], [em(0, "X"), em(0, "z")], [em(0, "y"), em(0, "X")]]
    # (a thread has a point before each of its operations, and one at each lock)
    weave = lambda s: [t for t in s for _ in (0, 1)]
    progs = [{"init": [], "threads": prog[:2], "schedules": [[0, 1] + s for s in two] + [weave(s) for s in two], "dfs": ck.pick(4000, 100000)},
             {"init": [], "threads": prog, "schedules": [[0, 1, 2] + s for s in (three if ck.thorough else r.sample(three, 1500))], "dfs": ck.pick(2000, 100000)}]
    broken = vt.tlc(ck.dir, "NamesConc", "MCNamesConcBroken.cfg")
    if not broken.violated:
        raise vt.ToolError("NamesConc does not depend on the second look")
    for _ in range(ck.pick(80, 800)):
        progs.append(dict(pool_program(r), dfs=ck.pick(1500, 20000)))
    explored = outs = joined(progs, execute(safe, progs, idle=300, per=1))
    ck.note("schedules_replayed", sum(o["runs"] for o in outs))
    ck.validate("NamesLin", outs, name="names-schedules", rerun=lambda i: joined([progs[i]], execute(safe, [progs[i]], idle=300, per=1))[0])
    if ck.violations:
        return
    ck.sample({k: (v if k != "outcomes" else v[:1]) for k, v in outs[0].items()})
    # the steps are atomic only if the threads do not race: small programs in real threads, with a race detector
    free = []
    for _ in range(ck.pick(30, 200)):
        free.append(dict(pool_program(r), free=ck.pick(60, 300)))
    bulk = []
    for _ in range(ck.pick(4, 20)):
        threads = []
        for t in range(4):
            ops = []
            for k in range(60):
                ops.append(em(0, "name%d" % r.randrange(80)))
                if k % 3 == 0: ops.append({"op": "resolvelast", "p": 0})
                if k % 4 == 0: ops.append({"op": "get", "p": 0, "s": codes("NAME%d" % r.randrange(80))})
                if k % 5 == 0: ops.append({"op": r.choice(["size", "bytes", "highest"]), "p": 0})
                if k % 10 == 0: ops.append({"op": r.choice(["copy", "eq", "write"]), "p": 0, "q": 1, "off": 128})
            threads.append(ops)
        bulk.append({"init": [], "threads": threads, "free": ck.pick(5, 20)})
    for exe, env, tag in ((tsan, TSAN, "race"), (safe, None, "free")):
        outs = joined(free, execute(exe, free, idle=120, env=env, per=2))
        retry = lambda i: next((o for o in (joined([free[i]], execute(exe, [free[i]], idle=120, env=env, per=2))[0] for _ in range(6)) if o["r"] != "ok"), outs[i])
        ck.validate("NamesLin", outs, name="names-" + tag, rerun=retry)
        if ck.violations:
            return
        outs = joined(bulk, execute(exe, bulk, idle=120, env=env, per=2))
        ck.validate("NamesBulk", outs, name="names-bulk-" + tag, rerun=lambda i: outs[i])
        if ck.violations:
            return
    # binding
    good = [o for o in explored[2:30] if o["outcomes"]]
    bad = []
    def corrupt(f):
        for _ in range(400):
            x = json.loads(json.dumps(r.choice(good)))
            x["outcomes"] = [r.choice(x["outcomes"])]
            try:
                if f(x["outcomes"][0]) is not False:
                    bad.append(x)
                    return
            except (StopIteration, IndexError):
                pass
    op = lambda o, n: next(q for q in o["ops"] if q["op"]["op"] == n)
    corrupt(lambda o: op(o, "emplace").update(v=op(o, "emplace")["v"] + 1))
    corrupt(lambda o: op(o, "get").update(v=140))
    corrupt(lambda o: op(o, "resolve").update(v=[9]))
    corrupt(lambda o: op(o, "size").update(v=3))
    corrupt(lambda o: op(o, "bytes").update(v=1000))
    corrupt(lambda o: op(o, "highest").update(v=200))
    corrupt(lambda o: op(o, "copy")["v"].pop())
    corrupt(lambda o: next(p for p in o["pools"] if len(p["dump"]) > 4)["dump"].pop())
    corrupt(lambda o: next(p for p in o["pools"] if len(p["dump"]) > 4)["stats"].update(size=99))
    corrupt(lambda o: o.update(deadlock=True))
    ck.must_reject("NamesLin", bad)


def run(ck):
    {"C18": c18, "C19": c19, "C20": c20}[ck.prop](ck)
