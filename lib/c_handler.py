"""C05: the throw handler against spec/Handler.tla."""
import json
import vt, machine

RT = ["runtime_error"]
TYPES = ["runtime_error", "logic_error", "out_of_range", "Silent", "Shouting", "Texted", "Unique", "Payload", "int", "InvalidOperandsError", "ArgumentCountError"]
# library operations and the errors that they raise, in order
LIB = {n: RT for n in "string number byte operand paren trailing list function cast cast2 division modulo args argtype re wordop nullenv root setstrings nullptr asobject read".split()}
LIB.update(operands=["InvalidOperandsError"] + RT, operands1=["InvalidOperandsError"] + RT, operandsrange=["InvalidOperandsError"] + RT,
           operandsre=["InvalidOperandsError"] + RT, arena=["out_of_range"], pool=["overflow_error"], fine=[])
LIB.update({n: RT for n in "asarray column badint badfloat badstring badobject badarray resolveobject resolvearray validatename nullptr2 nullmodel readpool readclash".split()})
LIB.update(validate=RT + RT, arenaend=["out_of_range"], arenaconst=["out_of_range"])
# The other places of compilation and evaluation that raise, by expression;
# a is 1, f is 1.5, s is "text", n is null, l is [1,2], o is an object
EXPRS = {}
for _kinds, _list in ((RT, r"""
 a/0 ;; a/0.0 ;; f/0 ;; f/(f-1.5) ;; a%(a-1) ;; 5/0 ;; 5%0 ;; range(l.*,1) ;; range(1,l.*) ;; range(s,1) ;; range(1,s) ;; range(1,1.5) ;; range(1) ;; range(1,2,3) ;; range()
 any() ;; each() ;; all() ;; count() ;; re() ;; re(1,2) ;; re(a) ;; re(f) ;; re(true) ;; re(o) ;; sum() ;; keys() ;; keys(1,2) ;; keys(o,o)
 split() ;; split(s) ;; split(a,"b") ;; split(s,a) ;; split(s,"e",s) ;; split(l.*,"e") ;; split(s,l.*) ;; split(s,"e",l.*) ;; select() ;; select(s) ;; select(l.*,s) ;; select(l.*,l.*) ;; select(l.*,1,s)
 select(l.*,1,l.*) ;; trace() ;; trace(a,s) ;; trace(a,l.*) ;; trace(a,1,a) ;; trace(a,1,l.*) ;; unknown(1) ;; unknown() ;; a as thing ;; a as 5 ;; a as 'int' ;; a as ( ;; a as
 1 + ;; * + ;; (1 ;; 1 ) ;; [1 ;; a[1 ;; a[ ;; a{1 ;; a{ ;; a.5 ;; a..+ ;; 1 2 ;; ( ;; ) ;; ] ;; } ;; a[] ;; a{} ;; () ;; a.(1 ;; any( ;; any(, ;; any(1, ;; any(1,) ;; any(1 2) ;; any(1 ]
 , ;; a, ;; a.) ;; a.{ ;; not ;; - ;; a and ;; and a ;; a == ;; == a ;; a.1.2
 'abc ;; "abc ;; r'abc ;; r"a ;; 'a\ ;; 're ;; re'a ;; 99999999999999999999 ;; 0x ;; 0xg ;; 0b ;; 0b2 ;; 0x11111111111111111 ;; a @ b ;; ` ;; 5a ;; 1.e ;; 1e ;; 1e+
 a foo ;; s foo ;; n foo ;; l foo ;; o foo ;; f foo ;; true foo ;; a foo s ;; s foo n ;; a foo l ;; o foo a ;; f foo true ;; 1 foo 2 ;; 'x' foo"""),
        (["InvalidOperandsError"] + RT, r"""
 l + 1 ;; o + 1 ;; 1 + l ;; o - 1 ;; o * o ;; s / 1 ;; s % 2 ;; f % 2 ;; a % f ;; s & 1 ;; f | 1 ;; 1 ^ s ;; s << 1 ;; f >> 1 ;; ~s ;; ~f ;; -o ;; -l ;; -s ;; #a ;; #true ;; true + 1 ;; 1 + true ;; true - true
 range(1,2) + 1 ;; 1 + range(1,2) ;; range(1,2) < 1 ;; 1 < range(1,2) ;; re('x') + 1 ;; a + re('x') ;; 's' < re('x') ;; -re('x') ;; ~re('x') ;; #re('x') ;; -range(1,2) ;; ~range(1,2) ;; o - l"""),
        (["InvalidOperandsError"], r"""
 range(1,2) foo ;; re('x') foo ;; range(1,2) foo a ;; a foo range(1,2) ;; re('x') foo a ;; a foo re('x') ;; re('x')...""")):
    for _e in _list.replace("\n", ";;").split(";;"):
        if _e.strip():
            EXPRS[_e.strip()] = _kinds


def run_op(r, n, slow):
    """Concrete operation for the name n of the specification's alphabet."""
    if n == "lib:fine":
        return dict(op="run", n=n, errors=[])
    if n.startswith("raise:"):
        t = n[6:]
        m = r.choice([b"", b"x", b"two words", b"a\nb\t\"q\" \\", "\u00e4\u20ac".encode(), b"y" * 5000])
        msg = m if t not in ("Silent", "int") else b""
        if t == "Shouting":
            msg = b"!" + m
        if t == "InvalidOperandsError":
            msg = b"std::exception"
        if t == "ArgumentCountError":
            msg = b"any: Expected 1 to 2 arguments; got 5"
        return dict(op="run", n=n, arg=m.hex(), errors=[dict(t=t, m=msg.hex())])
    if n.startswith("expr:"):
        return dict(op="run", n="expr", arg=n[5:].encode().hex(), errors=[dict(t=t, m="*") for t in EXPRS[n[5:]]])
    return dict(op="run", n=n, errors=[dict(t=t, m="*") for t in LIB[n[4:]]])


def concrete(r, hist, libs, twice):
    res = []
    for op in hist:
        if op["op"] == "run":
            n = op["n"]
            if n == "ok":
                c = run_op(r, "lib:fine", 0) if r.random() < 0.3 else dict(op="run", n="ok", errors=[])
            elif len(op["errors"]) == 2:
                c = run_op(r, r.choice(["lib:operands", "lib:operands1", "lib:operandsrange", "lib:operandsre"] + twice), 0)
            else:
                c = run_op(r, "raise:" + r.choice(TYPES) if r.random() < 0.6 else r.choice(libs), 0)
            if r.random() < 0.15:
                c["thread"] = True
            op = c
        res.append(op)
    return res




def run(ck):
    exe = vt.build("handler", ["handler.cpp"], vt.repo_sources())
    hists = machine.emitted(ck, "MCHandler", "MCHandler5.cfg" if ck.thorough else "MCHandler.cfg")
    r = ck.rng
    single = ["lib:" + k for k, v in LIB.items() if len(v) == 1 and k != "pool"] + ["expr:" + k for k, v in EXPRS.items() if len(v) == 1]
    twice = ["expr:" + k for k, v in EXPRS.items() if len(v) == 2]
    cases = [concrete(r, h, single, twice) for h in hists]
    # every error source under every handler
    for n in ["raise:" + t for t in TYPES] + ["lib:" + l for l in LIB] + ["expr:" + e for e in EXPRS]:
        for h in ("none", "rec1", "rec2", "throw", "nest"):
            for h2 in ("rec2", "none"):
                cases.append([dict(op="set", h=h), run_op(r, n, 1), dict(op="set", h=h2), run_op(r, n, 1), dict(op="get")])
    # long histories
    for _ in range(ck.pick(300, 3000)):
        h = []
        for _ in range(r.randint(10, 60)):
            h.append(r.choice([dict(op="set", h=r.choice(["none", "rec1", "rec2", "throw", "nest"])), dict(op="get"),
                               dict(op="run", n="ok", errors=[]), dict(op="run", n="r", errors=[1]), dict(op="run", n="l", errors=[1, 2])]))
        cases.append(concrete(r, h, single, twice))
    ck.log("%d histories, %d emitted by TLC" % (len(cases), len(hists)))

    def execute(cs):
        out = []
        for x, c in zip(vt.run_lines([exe], [json.dumps(c) for c in cs]), cs):
            out.append({"r": x["r"], "steps": []} if isinstance(x, dict) else x)
        return out
    recs = execute(cases)
    ck.validate("HandlerTrace", recs, name="handler-histories", rerun=lambda i: execute([cases[i]])[0], describe=lambda i: json.dumps(cases[i]))
    for i in (10, len(cases) // 2, len(cases) - 400):
        ck.sample({"history": cases[i], "record": json.loads(recs[i]) if isinstance(recs[i], str) else recs[i]})
    if ck.violations:
        return
    # binding: corrupted records have to be rejected
    bad = []
    pool = [json.loads(x) for x in recs if isinstance(x, str)]
    pool = [x for x in pool if next((s["calls"][0]["h"] for s in x["steps"] if s["calls"]), "") in ("rec1", "rec2")]
    def corrupt(f):
        x = json.loads(json.dumps(r.choice(pool)))
        f(next(s for s in x["steps"] if s["calls"]))
        bad.append(x)
    for _ in range(2):
        corrupt(lambda s: s["calls"].pop())
        corrupt(lambda s: s["calls"].append(s["calls"][0]))
        corrupt(lambda s: s["calls"][0].update(before=False))
        corrupt(lambda s: s["calls"][0].update(t="logic_error2"))
        corrupt(lambda s: s["calls"][-1].update(m=s["calls"][-1]["m"] + "00"))
        corrupt(lambda s: s["out"].update(t=""))
        corrupt(lambda s: s["calls"][0].update(h="rec3"))
    ck.must_reject("HandlerTrace", bad)
