"""C06..C15: expressions, from source text to values, against Eval.tla."""
import itertools, json, math, os, re, struct
import vt

HARNESS = ["eval.cpp"]

# ---------------------------------------------------------------- documents
class Obj:
    """Ordered members, duplicates allowed."""
    def __init__(self, *members):
        self.members = members


class Ref:
    """Node that is shared: the same Python object is stored once."""
    def __init__(self, v):
        self.v = v


def wide(i):
    return list((i & (2 ** 64 - 1)).to_bytes(8, "little"))


def exact(f):
    s = 1 if math.copysign(1, f) < 0 else 0
    m, e = math.frexp(abs(f))
    m, e = int(m * 2 ** 53), e - 53
    if m == 0:
        e = 0
    while m and m % 2 == 0:
        m //= 2
        e += 1
    return {"c": "fin", "s": s, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little")), "e": e}


def table(v):
    rows, shared = [], {}

    def add(v):
        if isinstance(v, Ref):
            if id(v) not in shared:
                shared[id(v)] = add(v.v)
            return shared[id(v)]
        rows.append(None)
        i = len(rows)
        t, p, c, ks = "null", [], [], []
        if isinstance(v, dict):
            v = Obj(*v.items())
        if isinstance(v, bool):
            t, p = "bool", v
        elif isinstance(v, int):
            t, p = "int", wide(v)
        elif isinstance(v, float):
            t, p = "float", exact(v)
        elif isinstance(v, (str, bytes)):
            t, p = "string", list(v if isinstance(v, bytes) else v.encode())
        elif isinstance(v, Obj):
            t = "object"
            for k, x in v.members:
                ks.append(list(k.encode()))
                c.append(add(x))
        elif isinstance(v, list):
            t = "array"
            for x in v:
                c.append(add(x))
        rows[i - 1] = {"t": t, "p": p, "c": c, "ks": ks}
        return i
    add(v)
    return rows


_sh = Ref({"x": 1, "y": [1, 2]})
DOCS = [
    {"a": 1, "b": {"c": 2, "d": [1, 2, 3]}, "s": "text", "f": 2.5, "n": None, "t": True, "u": False, "A1": 7, "arr": [{"a": 1}, {"a": 2, "b": 5}, {"c": 3}, 4, None, "x"]},
    [1, 2.0, "three", None, True, [4, 5], {"a": [6, {"a": 7}]}],
    {"a": {"a": {"a": {"b": 3}}}, "b": [[1, 2], [3, [4, 5]], []], "e": {}, "l": [], "x y": 1},
    Obj(("a", 1), ("b", 2), ("a", 3), ("B", 4), ("sum", 9), ("_", 5), ("any", [True, False, None])),
    5,
    "hello",
    {"a": _sh, "b": [_sh, _sh], "c": {"Z": _sh}},
    {"a": [10, 20, 30, 40, 50], "b": [1, 2, 1, 2], "c": ["a", "b", "aa", "ab", ""], "d": [0, False, None, "", 0.0, -1], "s": "a,b,,c", "i": 2},
    {"a": -9223372036854775808, "b": 9223372036854775807, "c": 1e300, "d": -0.0, "e": 0.1, "f": "12abc", "s": " -7.5e1x", "n": "null", "t": "true", "z": "\0q", "x": "0x10"},
    [],
    None,
    {"a": [[{"a": 1, "b": [None, {"a": False}]}], {"a": [True]}], "b": {"a": None, "b": {"b": 0}}},
]

NUMDOC = 9      # 1-based
NAMES = ["a", "b", "c", "d", "e", "f", "n", "s", "t", "x", "l", "arr", "i", "zz", "A1", "B", "sum", "Ten", "nothing"]


def size(t):
    return len(t)


# ---------------------------------------------------------------- expressions
INTS = ["0", "1", "2", "3", "5", "7", "10", "255", "65536", "4294967296", "9223372036854775807", "0x10", "0b101"]
FLTS = ["0.0", "0.5", "1.0", "1.5", "2.25", "0.1", "3.7", "1e10", "1e300", "2.0", "1e-5"]
STRS = ["''", "'a'", "'b'", "'ab'", "'12'", "'-3'", "'1.5'", "'abc'", "' 7 '", "'true'", "'null'", "'1e2x'", "'x,y,,z'", "\"q'\\\"\"", "'text'", "'hello'"]
RES = ["re'a.*'", "re'[ab]+'", "r'a'", "re''", "re'(a|b)c?'", "re'x|text'", "re'.'"]
CONSTS = ["true", "false", "null", "Ten", "PI", "nothing", "yes", "greeting", "ABC", "T", "F"]
BINS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "and", "or"]
PRE = ["-", "~", "not ", "#", "typeof "]
TYPES = ["bool", "int", "float", "string", "null", "INT", "String"]


class Gen:
    def __init__(self, rng, weights):
        self.r = rng
        self.w = weights
        self.tag = 0
        self.sums = 0      # depth of sum expressions around

    def pick(self, table):
        ks = list(table)
        return self.r.choices(ks, [table[k] for k in ks])[0]

    def leaf(self):
        r = self.r
        if self.sums and r.random() < .35:
            return r.choice(["$sum", "$val", "$idx"])
        k = self.pick(self.w.get("leaf", {"int": 3, "str": 2, "flt": 1, "const": 2, "field": 6, "self": 2, "star": 2, "wild": 1, "re": 0.3}))
        return {"int": lambda: r.choice(INTS[:6] if r.random() < .8 else INTS), "str": lambda: r.choice(STRS), "flt": lambda: r.choice(FLTS), "const": lambda: r.choice(CONSTS),
                "field": lambda: r.choice(NAMES), "self": lambda: "_", "star": lambda: "*", "wild": lambda: "**", "re": lambda: r.choice(RES)}[k]()

    def path(self, d):
        r = self.r
        s = r.choice(["a", "b", "_", "*", "**", "arr", "d", r.choice(NAMES), "(" + self.expr(d - 1) + ")"])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            if k < .55:
                s += "." + r.choice(["a", "b", "*", "**", "_", "c", "x", r.choice(NAMES), "(%s)" % self.expr(d - 1)])
            elif k < .7:
                s += "[%s]" % r.choice(["0", "1", "2", "5", "-1", "'a'", "'b'", "null", "1.0", self.expr(d - 2)])
            elif k < .9:
                s += "{%s}" % self.expr(d - 1)
            else:
                s += r.choice(["?", "..."])
        return s

    def args(self, d, n):
        return ", ".join(self.expr(d - 1) for _ in range(n))

    def multi(self, d):
        """An expression that yields several values."""
        r = self.r
        return r.choice(["*", "**", "a.*", "arr.*", "b.*", "arr(%s)" % self.args(d, r.choice([1, 2, 3])), "range(%s,%s)..." % (r.choice("0123"), r.choice("0135")),
                         "arr(1,2,3)", "arr(0,null,false,1)", "d.*", "c.*", "**.a", "*{%s}" % self.expr(d - 1), "split(%s,%s)" % (r.choice(["s", "'a,b,c'"]), "','"), self.expr(d - 1)])

    def step(self, d):
        """The expression that sum evaluates for each value; often different things for different values."""
        r = self.r
        self.sums += 1
        if r.random() < .5:
            s = "%s %s %s and %s or %s" % (r.choice(["$val", "$idx", "$idx", "$sum"]), r.choice(["==", "==", "!=", "<"]), r.choice("0123"), self.expr(d - 2), self.expr(d - 1))
        elif r.random() < .4:
            s = "arr(%s)" % ", ".join(r.choice(["$sum + $val", "$sum + 1", "$idx", "$sum", "$val", self.expr(d - 2)]) for _ in range(r.choice([2, 2, 3])))
        else:
            s = self.expr(d - 1)
        self.sums -= 1
        return s

    def call(self, d):
        r = self.r
        f = self.pick(self.w.get("fn", {"any": 2, "each": 2, "all": 1, "count": 2, "arr": 2, "range": 1, "re": .7, "split": 1, "select": 2, "sum": 2, "keys": 1, "trace": 1, "probe": 2, "none": .1}))
        if r.random() < .06:      # wrong number of arguments
            return "%s(%s)" % (f, self.args(d, r.choice([0, 1, 2, 3, 4])))
        if f in ("any", "each", "all", "count"):
            return "%s(%s)" % (f, ", ".join(self.multi(d - 1) for _ in range(r.choice([1, 1, 1, 2]))))
        if f == "arr":
            return "arr(%s)" % self.args(d, r.choice([0, 1, 2, 3]))
        if f == "range":
            return "range(%s, %s)" % (r.choice(["0", "1", "5", "-2", "i", self.expr(d - 1)]), r.choice(["0", "1", "3", "-2", self.expr(d - 1)])) + r.choice(["", "...", "..."])
        if f == "re":
            return "re(%s)" % r.choice(["'a.*'", "'[ab]'", "s", self.expr(d - 1)])
        if f == "split":
            return "split(%s, %s%s)" % (r.choice(["s", "'a,b,,c,'", "''", "'aXXbX'", self.expr(d - 1)]), r.choice(["','", "'X'", "'XX'", "''", self.expr(d - 1)]), r.choice(["", "", ", true", ", false", ", " + self.expr(d - 1)]))
        if f == "select":
            return "select(%s, %s%s)" % (self.multi(d), r.choice(["0", "1", "2", "9", "-1", self.expr(d - 1)]), r.choice(["", "", ", 0", ", 1", ", 2", ", -1", ", " + self.expr(d - 1)]))
        if f == "sum":
            return "sum(%s%s)" % (self.multi(d), r.choice(["", "", ", $sum + $val", ", $sum + $idx", ", $val * 2", ", $sum + $val, 100", ", $sum + $val, ''", ", " + self.step(d), ", " + self.step(d), ", %s, %s" % (self.step(d), self.expr(d - 1))]))
        if f == "keys":
            return "keys(%s)" % r.choice(["_", "a", "*", "b", self.expr(d - 1)])
        if f == "trace":
            return "trace(%s%s)" % (self.multi(d), r.choice(["", "", ", 0", ", 1", ", 2", ", -1", ", 2, 'T'", ", -1, 'T'", ", 1, 'tr'", ", " + self.expr(d - 1)]))
        if f == "probe":
            self.tag += 1
            return "probe(%d%s)" % (self.tag, "".join(", " + self.expr(d - 1) for _ in range(r.choice([0, 1, 1, 2]))))
        return "nosuch(%s)" % self.args(d, 1)

    def expr(self, d):
        r = self.r
        if d <= 0:
            return self.leaf()
        k = self.pick(self.w.get("expr", {"leaf": 2, "path": 4, "bin": 4, "pre": 1, "post": 1, "cast": 1, "call": 3, "paren": .5, "word": .1}))
        if k == "leaf":
            return self.leaf()
        if k == "path":
            return self.path(d)
        if k == "bin":
            s = "%s %s %s" % (self.expr(d - 1), self.pick(self.w["ops"]) if "ops" in self.w else r.choice(BINS), self.expr(d - 1))
            return "(%s)" % s if r.random() < .5 else s
        if k == "pre":
            return r.choice(PRE) + (self.leaf() if r.random() < .5 else "(%s)" % self.expr(d - 1))
        if k == "post":
            return "(%s)%s" % (self.expr(d - 1), r.choice(["?", "...", ".a", "[0]", "{_}", ".*", "[_]"]))
        if k == "cast":
            return "(%s) as %s" % (self.expr(d - 1), r.choice(TYPES))
        if k == "call":
            return self.call(d)
        if k == "word":
            return "(%s %s %s)" % (self.expr(d - 1), r.choice(["foo", "in", "string"]), r.choice(["", self.expr(d - 1)]))
        return "(%s)" % self.expr(d - 1)


def case(src, d=1, any=False, wild=False, max=0):
    return {"src": (src if isinstance(src, bytes) else src.encode("latin-1")).hex(), "d": d, "any": any, "wild": wild, "max": max}


def huge(s, d):
    """May s unpack a huge range?"""
    return "range" in s and "..." in s and (d == NUMDOC or "<<" in s or re.search(r"\d{3}|0x|0b|e\d", s) is not None)


def random_cases(ck, n, weights, depth=(1, 2, 3), anyp=0.03, wildp=0.03, maxp=0.1, maxlen=160):
    g = Gen(ck.rng, weights)
    r = ck.rng
    out = []
    while len(out) < n:
        g.tag = 0
        s = g.expr(r.choice(depth))
        d = r.randint(1, len(DOCS))
        if len(s) > maxlen or huge(s, d):
            continue
        out.append(case(s, d, r.random() < anyp, r.random() < wildp, r.choice([1, 1, 2, 3, 5]) if r.random() < maxp else 0))
    return out


# ---------------------------------------------------------------- running
class Runner:
    def __init__(self, ck):
        self.ck = ck
        self.exe = vt.build("eval", HARNESS, vt.repo_sources())
        self.docs = ck.cases_file("docs", [table(d) for d in DOCS + BIG])

    def execute(self, cases):
        res = vt.run_lines([self.exe, self.docs], [json.dumps(c) for c in cases], idle=6)
        out = []
        for c, r in zip(cases, res):
            if isinstance(r, dict):
                r = {"src": list(bytes.fromhex(c["src"])), "d": c["d"], "max": c["max"], "any": c["any"], "wild": c["wild"], "st": r["r"], "show": [], "cw": [], "run": [], "w": [], "tr": [], "all": 1}
            out.append(r)
        return out


def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


# ---------------------------------------------------------------- per property
import machine

DOCS += [Obj(("k1", 0), ("a", 1), ("k2", None), ("b", [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), ("k3", "x"), ("c", Obj(*[("abcabcxyz"[j % 9], j) for j in range(14)])),
             ("k4", 2.5), ("k5", True), ("d", 3), ("a", {"b": 1}), ("k6", []), ("k7", 7), ("b", 2), ("A", "last"), ("c", None), ("", 4), ("k8", 8))]
DOCS += [{"a": [None], "b": {"a": None}, "c": [[None], [1], {"x": None}, [[None]], {}, [[]]], "d": None, "arr": [None, [None]]}]
DOCS += [{"a": 2, "b": [None, {"a": "x"}, False]}, 3, []]     # those of MCEval.tla
MCDOC = len(DOCS) - 2                                         # 1-based number of the first one



def nested(n, leaf):
    """Arrays and objects around a leaf, each with a member before and after the inner one."""
    for i in range(n):
        leaf = [i, leaf, "x"] if i % 3 == 1 else Obj(("b", i), ("a", leaf), ("c", None)) if i % 3 == 2 else {"a": leaf}
    return leaf


# large documents, used by some expressions only
BIG = [nested(40, {"a": 7, "z": [1]}), nested(150, "end"), Obj(*[("k%d" % (i % 230), i) for i in range(300)], ("a", {"z": 1})),
       [{"a": i, "k%d" % (i % 7): None} if i % 3 else [i] for i in range(300)], {"a": [[], {}, [{}]] * 40, "b": ["s%d" % i for i in range(150)]}]
BIGSRC = ["**", "*", "**.a", "**.z", "a.**", "*.*", "*.a", "**[1]", "**{a}", "**.a.b", "a.*", "k299", "k0", "k33", "k34", "k229", "**.k6", "count(**)", "count(*)", "any(** == 7)", "any(** == 'end')", "any(** == 299)", "each(* != null)",
          "arr(*, probe(1), **)", "select(**, 33, 5)", "select(**, 290)", "*{typeof _ == 'object'}", "a[0]", "a[119]", "b[149]", "b[150]", "[299]", "[33]", "[256]", "[299].a", "[298].a", "*.k3", "sum(*.a)", "count(a.*)", "**{_ == 'end'}", "**.** == 7",
          "#_", "#a", "#b", "a.b.a.b", "**.b", "* as string", "any(*.a == 298)", "each(a.* as string)", "trace(b.*)", "b.*{_ == 's149'}", "(**)[40]", "keys(_)", "* > 298", "any(keys(_) == 'k229')"]


def big_cases(ck, maxes=(0,)):
    for d in range(len(DOCS) + 1, len(DOCS) + len(BIG) + 1):
        for s in BIGSRC:
            if s in ("arr(*, probe(1), **)", "**.** == 7") and d > len(DOCS) + 1:
                continue
            for m in maxes:
                yield case(s, d, max=m)
        depth = (40, 150)[d - len(DOCS) - 1] if d <= len(DOCS) + 2 else 0
        path = ["[1]" if i % 3 == 1 else ".a" for i in range(depth)][::-1]
        for k in sorted({1, 2, 15, 16, 17, 31, 32, 33, depth - 1, depth} & set(range(1, depth + 1))):
            p = "_" + "".join(path[:k])
            for t in (p, p + ".**.z", "count(%s.**)" % p, "any(%s.* == 'x')" % p):
                yield case(t, d)


MODE = {"C06": "parse", "C07": "eval", "C08": "fold", "C09": "eval", "C10": "eval", "C11": "eval", "C12": "eval", "C13": "eval", "C14": "eval", "C15": "diag"}

# quick and thorough models: (module, config, sample of what it emits (None: all, 0: nothing))
MODELS = {
    "C06": ([("MCParse", "MCParseToks.cfg", 12000), ("MCParse", "MCParseTree.cfg", 8000)],
            [("MCParse", "MCParseToks5.cfg", 150000), ("MCParse", "MCParseTreeBig.cfg", 100000)]),
    "C07": ([("MCWord", "MCWord.cfg", None)], [("MCWord", "MCWordBig.cfg", None)]),
    "C08": ([("MCEval", "MCEvalFold.cfg", 15000)], [("MCEval", "MCEvalFoldBig.cfg", 150000)]),
    "C09": ([("MCBig", "MCBig.cfg", 0), ("MCVal", "MCVal.cfg", 0)], [("MCBig", "MCBigFull.cfg", 0), ("MCVal", "MCVal.cfg", 0)]),
    "C10": ([("MCVal", "MCVal.cfg", 0)], [("MCVal", "MCVal.cfg", 0), ("MCBig", "MCBigFull.cfg", 0)]),
    "C11": ([("MCEval", "MCEvalPath.cfg", None)], [("MCEval", "MCEvalPathBig.cfg", None), ("MCEval", "MCEvalPath3.cfg", 60000)]),
    "C12": ([("MCEval", "MCEvalLogic.cfg", 12000)], [("MCEval", "MCEvalLogicBig.cfg", None)]),
    "C13": ([("MCEval", "MCEvalFn.cfg", 15000)], [("MCEval", "MCEvalFnBig.cfg", 150000)]),
    "C14": ([("MCEval", "MCEvalStop.cfg", 8000)], [("MCEval", "MCEvalStopBig.cfg", 100000)]),
    "C15": ([("MCEval", "MCEvalDiag.cfg", None)], [("MCEval", "MCEvalDiagBig.cfg", None)]),
}

WEIGHTS = {
    "C06": {"leaf": {"field": 10, "self": 1, "star": 1, "wild": 1, "int": .5, "str": .3}, "expr": {"leaf": 1, "path": 2, "bin": 8, "pre": 3, "post": 2, "cast": 2, "call": .5, "paren": 2, "word": .5}},
    "C07": {"leaf": {"const": 6, "field": 6, "self": 1, "star": .5, "int": .5}},
    "C08": {"leaf": {"int": 3, "str": 2, "flt": 1, "const": 2, "field": 3, "self": 2, "star": 2, "wild": 1, "re": .3},
            "expr": {"leaf": 2, "path": 3, "bin": 4, "pre": 1, "post": 1, "cast": 1, "call": 5, "paren": .2, "word": .2},
            "fn": {"any": 2, "each": 2, "all": 1, "count": 2, "arr": 2, "range": 1, "re": .7, "split": 1, "select": 2, "sum": 5, "keys": 1, "trace": 1, "probe": 2, "none": .1}},
    "C09": {"leaf": {"int": 4, "str": 2, "flt": 3, "const": 1, "field": 3, "self": .3, "re": .3}, "expr": {"leaf": 1, "bin": 8, "pre": 2, "cast": .5, "paren": .2}},
    "C10": {"leaf": {"int": 4, "str": 4, "flt": 3, "const": 2, "field": 4, "self": 1, "re": .5, "star": .5}, "expr": {"leaf": 1, "cast": 6, "pre": 4, "post": 1, "bin": .5, "call": .3}},
    "C11": {"leaf": {"field": 8, "self": 2, "star": 3, "wild": 3, "int": 1, "str": 1}, "expr": {"leaf": 1, "path": 9, "post": 2, "call": .3, "bin": .3},
            "ops": {"==": 1, "!=": 1, "and": 1}},
    "C12": {"leaf": {"field": 5, "self": 3, "star": 4, "wild": 2, "int": 2, "str": 1, "const": 2}, "expr": {"leaf": 1, "path": 5, "bin": 5, "call": 2, "post": 1, "pre": .5},
            "ops": {"and": 6, "or": 6, "==": 2, "<": 2, "+": 1, "!=": 1, ">": 1}},
    "C13": {"expr": {"leaf": 1, "call": 9, "path": 1, "bin": .5, "post": .5}},
    "C14": {"leaf": {"field": 2, "self": 1, "star": 3, "wild": 2, "int": 2, "const": 2}, "expr": {"leaf": 1, "call": 7, "path": 2, "bin": 2, "post": 1},
            "fn": {"any": 3, "each": 3, "count": 1, "arr": 3, "select": 3, "sum": 1, "trace": .5, "probe": 7}},
    "C15": {"leaf": {"field": 3, "self": 1, "star": 3, "wild": 1, "int": 2, "const": 1, "str": 1}, "expr": {"leaf": 1, "call": 6, "path": 3, "bin": 2, "post": 1.5, "cast": .2},
            "fn": {"trace": 7, "any": 1, "each": 1, "arr": 1, "select": 1, "count": 1, "sum": 1, "nosuch": .05}},
}

FRAGS = ["a", "b", "1", "'x'", "A", "Ten", "null", "true", "_", "*", "**", "...", ".", ",", "(", ")", "[", "]", "{", "}", "+", "-", "/", "%", "<<", ">>", "<", "<=", "==", "!=", "&", "|", "^", "~", "#", "?",
         "and", "or", "not", "typeof", "as", "int", "as int", "string", "foo", "any(", "count", "1.5", ":", "=", "!", "'", "\\", "re'a'", "$a", "as null", "as as"]


def soup(ck, n):
    """Token sequences, most of them not in the language."""
    r = ck.rng
    for _ in range(n):
        s = " ".join(r.choice(FRAGS[:45]) if r.random() < .9 else r.choice(FRAGS) for _ in range(r.randint(1, 9)))
        yield s


def mangled(ck, srcs, n):
    """Valid expressions with a token or a character removed, doubled or replaced."""
    r = ck.rng
    for _ in range(n):
        toks = r.choice(srcs).replace("(", " ( ").replace(")", " ) ").split(" ")
        i = r.randrange(len(toks))
        k = r.randrange(4)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, r.choice(FRAGS))
        elif k == 2:
            toks[i] = r.choice(FRAGS)
        else:
            toks = toks[:i + 1]
        yield " ".join(toks)


def deep(ck):
    for n in (1, 2, 3, 10, 60, 200):
        yield "(" * n + "a" + ")" * n
        yield "(" * n + "a" + ")" * (n - 1)
        yield "- " * n + "a"
        yield "not " * n + "a"
        yield "#" * n + "a"
        yield "a" + "?" * n
        yield "a" + "." + ".".join("b" * n)
        yield "a" + "[0]" * n
        yield "a" + "{b" * n + "}" * n
        yield "any(" * n + "a" + ")" * n
        yield "arr(" + ",".join("a" * n) + ")"
        yield " + ".join("a" * n)
        yield " and ".join("a" * n)
        yield "a as int" * n
        yield "a" + " as int" * n
        yield "a" + " as null" * n


def chain(ck, n):
    """Operators of all levels in a row, without and with parentheses."""
    r = ck.rng
    for _ in range(n):
        k = r.randint(2, 7)
        s = r.choice("abc")
        opened = 0
        for _ in range(k):
            x = r.random()
            if x < .12:
                s += r.choice([" ?", "...", " as int", " as string", " as bool", ".c", "[b]", "{b}", ".b.c", " as null"])
            op = r.choice(BINS + [".", "."])
            s += op if op == "." else " %s " % op
            if r.random() < .15:
                s += "("
                opened += 1
            if r.random() < .15:
                s += r.choice(PRE)
            s += r.choice("abc")
            if opened and r.random() < .4:
                s += ")"
                opened -= 1
        yield s + ")" * opened


def respell(r, w):
    k = r.randrange(4)
    return [w, w.upper(), w.capitalize(), "".join(c.upper() if r.random() < .5 else c for c in w)][k]


def words7(ck, n):
    r = ck.rng
    ws = ["a", "b", "A1", "sum", "ten", "pi", "nothing", "yes", "greeting", "s", "text", "A", "B1", "_A", "A_", "__", "_1", "$sum", "$a", "any", "count", "probe", "x\\ y", "int", "string", "float", "A_1_B", "zz"]
    fs = ["any", "each", "all", "count", "range", "re", "arr", "split", "select", "sum", "keys", "trace", "probe", "nosuch", "anyx", "an", "sums"]
    ctx = ["%s", "%s.%s", "_.%s", "%s.a", "a.%s", "b.%s", "(%s)", "{%s}", "[%s]", "*.%s", "**.%s", "%s{a}", "a{%s}", "%s == %s", "%s + 1", "-%s", "#%s", "a[%s]", "%s[0]", "typeof %s", "%s as %t", "arr(%s, %s)", "any(%s)",
           "a.(%s)", "a.(%s.%s)", "(%s).%s", "b.-%s", "b.{%s}", "b.[%s]", "b.%s.%s", "%s ?", "%s...", "%f(%s)", "%f(%s, %s)", "a.%f(%s)", "%f()", "%s as %t as %t", "a %s b", "%f(%s).%s", "%f(1, 3)", "%f('a,b', ',')", "%f(*, 1)", "%f(*)"]
    for _ in range(n):
        c = r.choice(ctx)
        while "%" in c:
            i = c.index("%")
            k = c[i + 1]
            c = c[:i] + respell(r, r.choice({"s": ws, "f": fs, "t": ["bool", "int", "float", "string", "null", "foo", "A", "model"]}[k])) + c[i + 2:]
        yield c


VALUES = ["0", "1", "(-1)", "2", "(-7)", "3", "63", "255", "(-256)", "65536", "2147483648", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "a", "b",
          "0.0", "1.0", "0.5", "(-1.5)", "2.0", "9007199254740992.0", "9223372036854775808.0", "1e20", "c", "d", "e", "0.1", "3.75", "1e-10",
          "''", "'a'", "'b'", "'ab'", "'7'", "'-12.5e1x'", "'true'", "' 42'", "'9223372036854775808'", "f", "s", "z", "'null'", "'1e2'", "'.5'", "'-'", "'\\n3'",
          "true", "false", "null", "l", "_", "*.zz", "range(1,3)", "range(3,1)", "re'a.*'", "re''", "re'[0-9]'", "Ten", "PI", "ABC", "greeting", "arr(1,2)", "arr(1.5,'x',null)", "b.zz"]
UNARY = ["-%s", "~%s", "not %s", "#%s", "typeof %s", "%s?", "%s as bool", "%s as int", "%s as float", "%s as string", "%s as null", "%s...", "(%s as int) as string", "(%s as string) as int", "(%s as string) as float",
         "typeof (%s)", "#(%s as string)", "(%s as float) as int", "(%s as bool) as int", "not not %s", "- -%s", "%s and 1", "%s or 1", "any(%s)", "*{_ == %s}", "%s as string as bool", "arr(%s)", "typeof arr(%s)"]


def rnd_value(r):
    k = r.randrange(8)
    if k == 0:
        return str(r.randint(0, 20))
    if k == 1:
        return "(-%d)" % r.randint(1, 100000)
    if k == 2:
        v = r.getrandbits(r.randint(1, 63))
        return r.choice(["%d", "(-%d)"]) % v
    if k == 3:
        return "%d.%d" % (r.randint(0, 1000), r.randint(0, 10 ** r.randint(1, 15)))
    if k == 4:
        return r.choice(["", "-"]) + "%d.%de%d" % (r.randint(0, 9), r.randint(0, 999), r.randint(-40, 40))
    if k == 5:
        return "'%s'" % "".join(r.choice("0123456789.-+ eax") for _ in range(r.randint(0, 8)))
    if k == 6:
        return "0x%x" % r.getrandbits(r.randint(1, 62))
    return r.choice(VALUES)


def binary9(ck):
    r = ck.rng
    for op in BINS[:16]:
        for x in VALUES:
            for y in VALUES:
                if ck.thorough or r.random() < .25:
                    yield case("(%s) %s (%s)" % (x, op, y), NUMDOC)
    for x in VALUES:
        for y in VALUES:
            if ck.thorough or r.random() < (.9 if "'" in x or x in ("s", "e", "f", "z") else .1):
                yield case("(%s)[%s]" % (x, y), NUMDOC)
    for x in VALUES:
        for u in UNARY[:5]:
            yield case(u % ("(%s)" % x), NUMDOC)
    for _ in range(ck.pick(8000, 80000)):
        x, y = rnd_value(r), rnd_value(r)
        yield case("(%s) %s (%s)" % (x, r.choice(BINS[:16]), y), NUMDOC)
    for d in (1, 2, 4, 7, 8, 12):
        for op in BINS[:16]:
            for x in ("_", "a", "b", "s", "f", "n", "t", "arr", "*", "c", "d"):
                for y in ("_", "a", "b", "1", "'x'", "null", "1.5", "*", "range(0,5)"):
                    if ck.thorough or r.random() < .15:
                        yield case("%s %s %s" % (x, op, y), d)


def casts10(ck):
    r = ck.rng
    for u in UNARY:
        for x in VALUES:
            yield case(u % ("(%s)" % x), NUMDOC)
            if ck.thorough:
                for u2 in UNARY:
                    yield case(u % ("(%s)" % (u2 % ("(%s)" % x))), NUMDOC)
        for d in range(1, len(DOCS) + 1):
            for x in ("_", "*", "**", "a", "b", "s", "n", "t", "f", "l", "e"):
                yield case(u % x, d)
    for _ in range(ck.pick(12000, 80000)):
        u = r.choice(UNARY)
        if r.random() < .4:
            u = r.choice(UNARY) % ("(%s)" % u)
        yield case(u % ("(%s)" % rnd_value(r)), NUMDOC)
    for t in ["0x10", "1_0", "1e5", "1E5", "-1e5", "+7", "--7", "-", "+", "", " ", "\\t9", "9 9", "1.", ".1", "1.2.3", "1e", "1e+", "12e3.4", "Infinity", "nan", "inf", "0b1", "0o7", "٣",
              "9223372036854775807", "-9223372036854775808", "9999999999999999999", "00012", "-0", "-0.0", "1.7976931348623157e308", "5e-1", "true", "false", "null", "[1]", "{}"]:
        for c in ("int", "float", "bool", "string"):
            yield case(("'%s' as %s" % (t, c)).encode(), NUMDOC)
            yield case(("('%s' as %s) as string" % (t, c)).encode(), NUMDOC)


def traces15(ck):
    """Many traces in one expression, with equal and with different names."""
    r = ck.rng
    for n in [12, 15, 16, 17, 31, 33, 64] + [r.randint(5, 40) for _ in range(ck.pick(40, 300))]:
        names = ["%s%d" % (r.choice(["n", "N", "trace"]), i) for i in range(r.choice([1, 2, n, n, n]))]
        ts = ["trace(%s%s)" % (r.choice(["a", "b", "*", "_", "1", "'x'", "zzz", "**", "arr(1,2,3)"]),
                               r.choice([", -1, '%s'", ", 0, '%s'", ", 1, '%s'", ", 3, '%s'", ", -1, '%s'", ", -1, '%s'"]) % names[i % len(names)]) for i in range(n)]
        if n < 20 and r.random() < .4:
            yield case(" + ".join("count(%s)" % t for t in ts).encode(), r.randint(1, len(DOCS)))
        else:
            yield case(("arr(%s)" % ", ".join(ts)).encode(), r.randint(1, len(DOCS)), max=r.choice((0, 0, 0, 2, 9)))


WIDE = ["0", "1", "2", "-1", "-2", "16777215", "16777216", "-16777217", "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297",
        "-4294967296", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807-1)", "0x8000000", "-65537"]
INPUTS = ["arr(1,2,3)", "*", "**", "arr(probe(1,'p'),probe(2,'q'),probe(3,'r'))", "range(1,4)...", "probe(1, a, b)", "split('a,b,c,d', ',')", "zzz"]


def functions13(ck):
    """Positions, limits and bounds over the whole range of integers, and long sequences of values."""
    r = ck.rng
    for a in WIDE:
        yield case("select(%s, %s)" % (r.choice(INPUTS), a), r.randint(1, len(DOCS)))
        for b in WIDE:
            if ck.thorough or r.random() < .8:
                yield case("select(%s, %s, %s)" % (r.choice(INPUTS), a, b), r.randint(1, len(DOCS)), max=r.choice((0, 0, 0, 1, 2)))
            if ck.thorough or r.random() < .3:
                yield case("range(%s, %s) as string" % (a, b), 1)
                yield case("%s == range(%s, %s)" % (r.choice(WIDE), a, b), 1)
        for d in (-5, -2, -1, 0, 1, 2, 5):
            if not -2**63 <= eval(a) + d < 2**63:
                continue
            for t in ("range(%s, %s)...", "count(range(%s, %s)...)", "arr(probe(1), range(%s, %s)...)", "any(range(%s, %s)... == probe(1, 5))"):
                yield case(t % (a, "%s %s %d" % (a, "-" if d < 0 else "+", abs(d))), 1, max=r.choice((0, 0, 1, 3)))
        for b in WIDE:
            if abs(eval(a) - eval(b)) < 100 or ck.thorough or r.random() < .5:
                for t in ("range(%s, %s)...", "select(range(%s, %s)..., 3, 4)", "arr('x', range(%s, %s)...)", "any(range(%s, %s)... != {1})", "each(range(%s, %s)... == {0})", "(range(%s, %s)...)[0]", "select(trace(range(%s, %s)...), 7)",
                          "any(arr(probe(1, range(%s, %s)...)))", "select(range(%s, %s)... + probe(1, 0), 2, 2)", "select(arr(probe(7), range(%s, %s)...), 0, 3)"):
                    if r.random() < .12:
                        yield case(t.replace("{0}", a).replace("{1}", a) % (a, b), 1, max=3 if t[:5] in ("range", "(rang", "arr('") else 0)
        yield case("trace(%s, %s, 'x')" % (r.choice(INPUTS), a), r.randint(1, len(DOCS)))
    for n in [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000]:
        for t in ("count(range(1,%d)...)", "sum(range(1,%d)...)", "any(range(0,%d)... == {0})".replace("{0}", str(n)), "each(range(0,%d)... < {0})".replace("{0}", str(n)), "select(range(1,%d)..., {0}, 3)".replace("{0}", str(n - 2)),
                  "sum(range(1,%d)..., $sum + $idx)", "count(probe(1, range(%d,1)...))", "select(range(%d,1)..., {0}, 0)".replace("{0}", str(n - 4))):
            if (n <= 300 or "select" not in t and "sum" not in t) and (ck.thorough or r.random() < (.5 if n <= 300 else .3)):
                yield case(t % n, 1)
    for n in [10, 20, 40, 80, 150]:
        yield case("count(arr(%s))" % ",".join("probe(%d, %d)" % (i, i % 3) for i in range(n)), 1)
        yield case("any(%s)" % ",".join(["a"] * n), 1)
        yield case("split('%s', ',')" % ",".join("x%d" % i for i in range(n)), 1)
        yield case("each(%s)" % ",".join("%d" % (n - i) for i in range(n)), 1)


def with_docs(ck, srcs, k, maxes=(0,)):
    r = ck.rng
    out = []
    for s in srcs:
        for d in [r.choice([MCDOC, MCDOC, MCDOC + 1, MCDOC + 2])] + [r.randint(1, len(DOCS)) for _ in range(k - 1)]:
            out.append(case(s, d, max=r.choice(maxes)))
    return out


def cases_of(ck, emitted):
    p, r = ck.prop, ck.rng
    n = ck.pick(1, 10)
    w = WEIGHTS[p]
    maxes = {"C14": (0, 1, 1, 2, 3, 4), "C15": (0, 0, 0, 1, 2)}.get(p, (0,))
    out = with_docs(ck, [bytes(x) for x in emitted], 2 if p in ("C08", "C11", "C12", "C13", "C14", "C15") else 1, maxes)
    anyp = {"C08": .15, "C06": .05}.get(p, .02)
    wildp = {"C08": .25, "C06": .05}.get(p, .02)
    maxp = {"C14": .7, "C15": .2, "C08": .1}.get(p, .02)
    depth = {"C06": (2, 3, 4), "C07": (1, 2), "C09": (1, 2, 2), "C10": (1, 2, 2)}.get(p, (1, 2, 2, 3))
    rand = {"C06": 8000, "C07": 4000, "C08": 16000, "C09": 3000, "C10": 3000, "C11": 16000, "C12": 14000, "C13": 16000, "C14": 14000, "C15": 14000}[p]
    rc = random_cases(ck, rand * n, w, depth, anyp, wildp, maxp, maxlen=200)
    out += rc
    if p == "C06":
        srcs = [bytes.fromhex(c["src"]).decode("latin-1") for c in rc]
        out += [case(s) for s in itertools.chain(soup(ck, 8000 * n), mangled(ck, srcs, 8000 * n), deep(ck), chain(ck, 10000 * n))]
        out += [case(a + " " + b + " " + c) for a in FRAGS for b in FRAGS for c in FRAGS if ck.thorough or r.random() < .03]
    if p == "C07":
        out += [case(s, r.choice([1, 3, 4, 7])) for s in words7(ck, 14000 * n)]
    if p == "C09":
        out += list(binary9(ck))
    if p == "C10":
        out += list(casts10(ck))
    if p == "C13":
        out += list(functions13(ck))
    if p == "C11" or p in ("C12", "C14"):
        out += list(big_cases(ck, {"C11": (0,), "C12": (0,), "C14": (1, 2, 33)}[p]))
    if p == "C15":
        out += list(traces15(ck))
    return dedup(out)


def describe(c):
    return "%r on document %d (any=%s, wildcard=%s, stop after %d)" % (bytes.fromhex(c["src"]), c["d"], c["any"], c["wild"], c["max"])


def run(ck):
    emitted = []
    for module, cfg, sample in MODELS[ck.prop][1 if ck.thorough else 0]:
        if sample == 0:
            ck.model(module, cfg)
            continue
        e = machine.emitted(ck, module, cfg, timeout=3000)
        ck.log("%d expressions emitted by %s" % (len(e), cfg))
        emitted += e if sample is None or len(e) <= sample else ck.rng.sample(e, sample)
    R = Runner(ck)
    cases = cases_of(ck, emitted)
    recs = R.execute(cases)
    ck.log("%d cases executed" % len(cases))
    env = {"VT_MODE": MODE[ck.prop], "VT_DOCS": R.docs}
    ck.validate("EvalTrace", recs, name="evaluations", env=env, rerun=lambda i: R.execute([cases[i]])[0], describe=lambda i: describe(cases[i]) + " -> " + str(recs[i])[:2000], timeout=3000)
    ok = [i for i, x in enumerate(recs) if isinstance(x, str) and '"st":"ok"' in x]
    ck.note("expressions", len(cases))
    ck.note("expressions_rejected_by_the_compiler", len(recs) - len(ok))
    ck.note("documents", len(DOCS))
    for i in ok[::max(1, len(ok) // 4)][:5]:
        ck.sample({"case": describe(cases[i]), "record": json.loads(recs[i])})
    if not ck.violations:
        binding(ck, [json.loads(recs[i]) for i in ok], env)


def binding(ck, ok, env):
    """Corrupted records have to be rejected."""
    r = ck.rng
    mode = env["VT_MODE"]
    bad = []

    def add(pred, f, n=2):
        pool = [x for x in ok if pred(x)]
        if not pool:
            raise vt.ToolError("no record to corrupt")
        for x in r.sample(pool, min(n, len(pool))):
            y = json.loads(json.dumps(x))
            f(y)
            bad.append(y)
    vals = lambda x: [i for i in x["run"] if i["k"] == "v"]
    def settle(x): x["st"] = "err"
    def show(x): x["show"] = x["show"][:-1] + [88]
    add(lambda x: len(x["show"]) > 3, show)
    add(lambda x: True, settle)
    if mode != "parse":
        def drop(x): x["run"].pop()
        def dup(x): x["run"].append(x["run"][-1])
        def num(x): next(i for i in x["run"] if i["k"] == "v" and i["v"]["t"] == "int")["v"]["p"][0] ^= 1
        def typ(x): vals(x)[0]["v"]["t"] = "string" if vals(x)[0]["v"]["t"] != "string" else "null"; vals(x)[0]["v"]["p"] = [1]
        def swap(x): x["run"].reverse()
        add(lambda x: vals(x) and x["run"][-1]["k"] == "v", drop)
        add(lambda x: vals(x) and x["run"][-1]["k"] == "v", dup)
        add(lambda x: any(i["v"]["t"] == "int" for i in vals(x)), num)
        add(lambda x: vals(x), typ)
        add(lambda x: len(vals(x)) > 1 and x["run"] != x["run"][::-1] and x["run"][-1]["k"] != "e", swap)
    if mode == "diag":
        def warn(x): x["cw" if x["cw"] else "w"].pop()
        def calls(x): x["tr"][0]["calls"] += 1
        def keep(x): next(t for t in x["tr"] if t["vs"])["vs"].pop()
        add(lambda x: x["cw"] or (x["w"] and x["run"][-1]["k"] == "v"), warn)
        add(lambda x: x["tr"] and x["run"] and x["run"][-1]["k"] == "v", calls)
        add(lambda x: any(t["vs"] for t in x["tr"]) and x["run"] and x["run"][-1]["k"] == "v", keep)
    # (records that the specification leaves open cannot be rejected)
    path = [y for y in bad]
    ck.must_reject("EvalTrace", path, env=env)
