"""C27: what a debug hook is told (spec/Debug.tla), and that it changes nothing."""
import json, os
import vt, c_eval

HARNESS = ["debug.cpp"]
W = {"leaf": {"field": 5, "self": 2, "star": 4, "wild": 2, "int": 2, "const": 2, "str": 1}, "expr": {"leaf": 1, "call": 6, "path": 4, "bin": 4, "post": 1, "pre": 1, "cast": .5, "word": .2},
     "fn": {"any": 2, "each": 2, "count": 2, "arr": 3, "select": 1.5, "sum": 2, "trace": 1, "probe": 4, "range": .5, "re": .3, "split": .4, "keys": .5}}
HAND = """a ;; * ;; ** ;; _ ;; 1 ;; a.b ;; *.a ;; **.a ;; a and b ;; a or b ;; * and * ;; * or * ;; *{_} ;; **{a} ;; *[0] ;; b[*] ;; -* ;; not * ;; (* as string) ;; * + * ;; * == 2 ;; any(*) ;; each(*) ;; all(**) ;; count(*) ;; count(*, **)
 arr(*, *) ;; arr(a, *, 1).a ;; any(a, b, *) ;; each(*, a) ;; select(**, 1, 2) ;; select(*, 1) ;; sum(*) ;; sum(*, $sum + 1) ;; sum(*, $sum + $val, 0) ;; keys(_) ;; keys(*) ;; trace(*) ;; trace(* + 1, 1, 'x') ;; range(1, a) ;; range(1, a)... ;; range(a, 3)... + *
 re('a') == * ;; split('a,b', ',') ;; split('a,b', a or ',') ;; probe('p') ;; probe('p', *) ;; probe('p', *) + probe('q', *) ;; any(probe('p', *)) ;; any(probe('p', false), probe('q', true), probe('r', true)) ;; * and probe('p', *)
 *{probe('p', _)} ;; *.probe('p', _) ;; probe('p', *.a){_} ;; arr(1, 2, 3)... ;; (**)... ;; a.b.c.d ;; (a.b).(c.d) ;; **.*.** ;; a{b{c{d}}} ;; 1/0 ;; a/0 ;; *+1/0 ;; probe('p', *) + (1/a) ;; range(*, 2) ;; * foo ;; # b ;; typeof * ;; any(** == 1) ;; count(** == 'x')"""


class Runner:
    def __init__(self, ck):
        self.exe = vt.build("debug", HARNESS, vt.repo_sources())
        self.docs = ck.cases_file("docs", [c_eval.table(d) for d in c_eval.DOCS])

    def execute(self, cases):
        res = vt.run_lines([self.exe, self.docs], [json.dumps(c) for c in cases], idle=6)
        out = []
        for c, r in zip(cases, res):
            if isinstance(r, dict):
                r = {"src": list(bytes.fromhex(c["src"])), "d": c["d"], "max": c["max"], "any": c["any"], "wild": c["wild"], "st": r["r"],
                     "show": [], "cw": [], "run": [], "w": [], "tr": [], "all": 1, "cev": [], "ev": [], "tx": [], "vl": []}
            out.append(r)
        return out


def run(ck):
    ck.model("MCDebug", "MCDebugDeep.cfg" if ck.thorough else "MCDebug.cfg")
    r = ck.rng
    hand = [h.strip() for h in HAND.replace("\n", ";;").split(";;")]
    cases = [c_eval.case(h, d, max=m) for h in hand for d in [c_eval.MCDOC] + r.sample(range(1, len(c_eval.DOCS) + 1), ck.pick(3, 12)) for m in (0, 0, 1, 2)]
    cases += c_eval.random_cases(ck, ck.pick(7000, 60000), W, (1, 2, 2, 3), .1, .1, .4, maxlen=90)
    cases = c_eval.dedup(cases)
    R = Runner(ck)
    recs = R.execute(cases)
    env = {"VT_MODE": "diag", "VT_DOCS": R.docs}
    ck.log("%d cases executed" % len(cases))
    ck.validate("DebugTrace", recs, name="evaluations under a hook", env=env, rerun=lambda i: R.execute([cases[i]])[0],
                describe=lambda i: c_eval.describe(cases[i]) + " -> " + str(recs[i])[:2000], timeout=3000)
    ok = [json.loads(x) for x in recs if isinstance(x, str) and '"st":"ok"' in x]
    ck.note("expressions", len(cases))
    ck.note("events_of_the_hook", sum(len(x["ev"]) + len(x["cev"]) for x in ok))
    for x in ok[::max(1, len(ok) // 3)][:3]:
        ck.sample({"source": bytes(x["src"]).decode("latin-1"), "events": [[e["k"], bytes(x["tx"][e["s"] - 1]).decode("latin-1") if e["s"] else ""] for e in x["ev"]][:30]})
    if not ck.violations:
        binding(ck, ok, env)


def binding(ck, ok, env):
    r = ck.rng
    plain = [x for x in ok if x["ev"] and len(x["ev"]) < 60 and not any(e["k"] in "xm" for e in x["ev"]) and x["run"] and all(i["k"] != "e" for i in x["run"])]
    bad = []

    def add(pred, f, n=3):
        pool = [x for x in plain if pred(x)]
        if not pool:
            raise vt.ToolError("no record to corrupt")
        for x in r.sample(pool, min(n, len(pool))):
            y = json.loads(json.dumps(x))
            f(y)
            bad.append(y)
    inner = lambda x: [i for i in range(1, len(x["ev"]) - 1) if x["ev"][i]["k"] == "e"]
    def lost_end(x): del x["ev"][r.choice(inner(x))]
    def last_end(x): x["ev"].pop()
    def lost_begin(x): del x["ev"][0]
    def phase(x): x["ev"][0]["ph"] = "c"
    def early(x): x["ev"].insert(1, dict(x["ev"].pop()))
    def outside(x): x["ev"].append({"k": "v", "s": 0, "ph": "", "v": 0})
    def twice(x): x["ev"] += json.loads(json.dumps(x["ev"]))
    def compiled(x): x["cev"].pop()
    def value(x): x["run"].pop()
    def other(x): x["ev"][0]["v"] = next(j + 1 for j, v in enumerate(x["vl"]) if v != x["vl"][x["ev"][0]["v"] - 1])
    add(inner, lost_end)
    for f in (last_end, lost_begin, phase, outside, twice, value):
        add(lambda x: True, f)
    add(lambda x: len(x["ev"]) > 4, early)
    add(lambda x: x["cev"], compiled)
    add(lambda x: len({json.dumps(v) for v in x["vl"]}) > 1 and x["vl"][x["ev"][0]["v"] - 1]["n"] == 1, other)
    ck.must_reject("DebugTrace", bad, env=env)
