------------------------------- MODULE Parse -------------------------------
(* Grammar of the language: tokens to expression trees by precedence.       *)
(* A tree is one of                                                         *)
(*   [k |-> "const", vs |-> values]                                         *)
(*   [k |-> "field", s |-> name]                                            *)
(*   [k |-> "child"] (one star)  [k |-> "wild"] (two stars)                 *)
(*   [k |-> "path"|"sub"|"index"|"and"|"or", l, r]                          *)
(*   [k |-> "un", o, e]  [k |-> "bin", o, l, r]  [k |-> "unpack", e]        *)
(*   [k |-> "uword", s, e]  [k |-> "bword", s, l, r]                        *)
(*   [k |-> "call", s, a, id]    id: position of the name, unique           *)
EXTENDS Val

Const(v) == [k |-> "const", vs |-> <<v>>]
Field(s) == [k |-> "field", s |-> s]
Node2(k, l, r) == [k |-> k, l |-> l, r |-> r]
Un(o, e) == [k |-> "un", o |-> o, e |-> e]
Bin(o, l, r) == [k |-> "bin", o |-> o, l |-> l, r |-> r]
SelfS == <<95>>

InfixPrec(t) ==
  CASE t = "DOT" -> 12
    [] t = "LBRACE" -> 11
    [] t = "LBRACK" -> 10
    [] t \in {"OP_BOOL", "OP_UNPACK"} -> 9
    [] t \in {"OP_CAST", "WORD"} -> 7
    [] t \in {"OP_TIMES", "OP_DIV", "OP_MOD"} -> 6
    [] t \in {"OP_ADD", "OP_SUB"} -> 5
    [] t \in {"OP_LSHIFT", "OP_RSHIFT", "OP_BITAND", "OP_BITOR", "OP_BITXOR"} -> 4
    [] t \in {"OP_LT", "OP_LTEQ", "OP_GT", "OP_GTEQ"} -> 3
    [] t \in {"OP_EQ", "OP_NOT_EQ"} -> 2
    [] t \in {"OP_AND", "OP_OR"} -> 1
    [] OTHER -> 0
UnaryPrec == 8

BinOps == [OP_ADD |-> "add", OP_SUB |-> "sub", OP_TIMES |-> "mul", OP_DIV |-> "div", OP_MOD |-> "mod",
           OP_BITAND |-> "band", OP_BITOR |-> "bor", OP_BITXOR |-> "bxor", OP_LSHIFT |-> "shl", OP_RSHIFT |-> "shr",
           OP_EQ |-> "eq", OP_NOT_EQ |-> "ne", OP_LT |-> "lt", OP_LTEQ |-> "le", OP_GT |-> "gt", OP_GTEQ |-> "ge"]
PrefixOps == [OP_SUB |-> "neg", OP_BITINV |-> "inv", OP_NOT |-> "not", OP_LEN |-> "len", OP_TYPEOF |-> "typeof"]

NilTok == [t |-> "NIL", v |-> NoVal]
TokAt(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE NilTok

(* A word of upper-case letters, digits and underscores with a letter *)
IsSymbol(s) == /\ \A i \in 1..Len(s) : IsUpper(s[i]) \/ IsDigit(s[i]) \/ s[i] = 95
               /\ \E i \in 1..Len(s) : IsUpper(s[i])

(* consts: sequence of [n |-> name, v |-> value] *)
Lookup(tab, name) == LET m == {i \in 1..Len(tab) : SameName(tab[i].n, name)} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE

Bad == [ok |-> FALSE, a |-> [k |-> "none"], i |-> 0]
Good(a, i) == [ok |-> TRUE, a |-> a, i |-> i]
Then(r, F(_, _)) == IF r.ok THEN F(r.a, r.i) ELSE Bad

TypeOps == << <<B("bool"), "bool">>, <<B("int"), "int">>, <<B("float"), "float">>, <<B("string"), "string">> >>
CastTo(e, t) ==     \* tree, or none
  IF t.t = "C_NULL" THEN Un("null", e)
  ELSE IF t.t # "WORD" THEN [k |-> "none"]
  ELSE LET n == LowerAll(t.v.s)
           m == {j \in 1..Len(TypeOps) : TypeOps[j][1] = n}
       IN  IF n = NullS THEN Un("null", e)
           ELSE IF m = {} THEN [k |-> "none"] ELSE Un(TypeOps[CHOOSE j \in m : TRUE][2], e)

RECURSIVE PPrec(_, _, _, _, _), PInfix(_, _, _, _, _, _), PArgs(_, _, _, _)
PrefixToks == {"C_TRUE", "C_FALSE", "C_NULL", "INT", "FLOAT", "STRING", "REGEXP", "OP_SUB", "OP_BITINV", "OP_NOT", "OP_LEN", "OP_TYPEOF",
             "LPAREN", "LBRACE", "LBRACK", "WORD", "SELF", "WILDCARD", "OP_TIMES"}

(* Everything up to the closing token *)
PTo(ts, i, close, cs) == Then(PPrec(ts, i, 0, FALSE, cs), LAMBDA a, j : IF TokAt(ts, j).t = close THEN Good(a, j + 1) ELSE Bad)
(* Arguments up to the closing parenthesis: [ok, a |-> sequence, i] *)
PArgs(ts, i, acc, cs) ==
  Then(PPrec(ts, i, 0, FALSE, cs), LAMBDA a, j :
    CASE TokAt(ts, j).t = "RPAREN" -> Good(Append(acc, a), j + 1)
      [] TokAt(ts, j).t = "COMMA" -> PArgs(ts, j + 1, Append(acc, a), cs)
      [] OTHER -> Bad)

PWord(ts, i, inPath, cs) ==
  LET w == TokAt(ts, i).v.s
      next == TokAt(ts, i + 1).t
      c == Lookup(cs, w)
      args == IF TokAt(ts, i + 2).t = "RPAREN" THEN Good(<<>>, i + 3) ELSE PArgs(ts, i + 2, <<>>, cs)
  IN  IF next = "LPAREN" THEN Then(args, LAMBDA a, j : Good([k |-> "call", s |-> w, a |-> a, id |-> i], j))
      ELSE IF ~inPath /\ IsSymbol(w) /\ next # "DOT" THEN Good(Const(StrV(w)), i + 1)
      ELSE IF ~inPath /\ c # 0 THEN Good(Const(cs[c].v), i + 1)
      ELSE Good(Field(w), i + 1)

PPrefix(ts, i, inPath, cs) ==
  LET t == TokAt(ts, i) IN
  CASE t.t = "C_TRUE" -> Good(Const(BoolV(TRUE)), i + 1)
    [] t.t = "C_FALSE" -> Good(Const(BoolV(FALSE)), i + 1)
    [] t.t = "C_NULL" -> Good(Const(NullV), i + 1)
    [] t.t = "INT" -> Good(Const(IntV(t.v.w)), i + 1)
    [] t.t = "FLOAT" -> Good(Const(OfFloat(OfFTok(t.v))), i + 1)
    [] t.t = "STRING" -> Good(Const(StrV(t.v.s)), i + 1)
    [] t.t = "REGEXP" -> Good(Const(IF ReOK(t.v.s) THEN ReV(t.v.s) ELSE Unspec), i + 1)
    [] t.t \in DOMAIN PrefixOps -> Then(PPrec(ts, i + 1, UnaryPrec, inPath, cs), LAMBDA a, j : Good(Un(PrefixOps[t.t], a), j))
    [] t.t = "LPAREN" -> PTo(ts, i + 1, "RPAREN", cs)
    [] t.t = "LBRACE" -> Then(PTo(ts, i + 1, "RBRACE", cs), LAMBDA a, j : Good(Node2("sub", Field(SelfS), a), j))
    [] t.t = "LBRACK" -> Then(PTo(ts, i + 1, "RBRACK", cs), LAMBDA a, j : Good(Node2("index", Field(SelfS), a), j))
    [] t.t = "SELF" -> Good(Field(SelfS), i + 1)
    [] t.t = "WILDCARD" -> Good([k |-> "wild"], i + 1)
    [] t.t = "OP_TIMES" -> Good([k |-> "child"], i + 1)
    [] t.t = "WORD" -> PWord(ts, i, inPath, cs)
    [] OTHER -> Bad

(* left followed by everything that binds stronger than prec *)
PInfix(ts, l, i, prec, inPath, cs) ==
  LET t == TokAt(ts, i)
      p == InfixPrec(t.t)
      r == CASE t.t = "DOT" -> Then(PPrec(ts, i + 1, p, TRUE, cs), LAMBDA a, j : Good(Node2("path", l, a), j))
             [] t.t = "LBRACE" -> Then(PTo(ts, i + 1, "RBRACE", cs), LAMBDA a, j : Good(Node2("sub", l, a), j))
             [] t.t = "LBRACK" -> Then(PTo(ts, i + 1, "RBRACK", cs), LAMBDA a, j : Good(Node2("index", l, a), j))
             [] t.t = "OP_BOOL" -> Good(Un("bool", l), i + 1)
             [] t.t = "OP_UNPACK" -> Good([k |-> "unpack", e |-> l], i + 1)
             [] t.t = "OP_CAST" -> LET c == CastTo(l, TokAt(ts, i + 1)) IN IF c.k = "none" THEN Bad ELSE Good(c, i + 2)
             [] t.t = "WORD" -> IF TokAt(ts, i + 1).t \in PrefixToks
                                THEN Then(PPrec(ts, i + 1, p, inPath, cs), LAMBDA a, j : Good([k |-> "bword", s |-> t.v.s, l |-> l, r |-> a], j))
                                ELSE Good([k |-> "uword", s |-> t.v.s, e |-> l], i + 1)
             [] t.t = "OP_AND" -> Then(PPrec(ts, i + 1, p, inPath, cs), LAMBDA a, j : Good(Node2("and", l, a), j))
             [] t.t = "OP_OR" -> Then(PPrec(ts, i + 1, p, inPath, cs), LAMBDA a, j : Good(Node2("or", l, a), j))
             [] OTHER -> Then(PPrec(ts, i + 1, p, inPath, cs), LAMBDA a, j : Good(Bin(BinOps[t.t], l, a), j))
  IN  IF p <= prec THEN Good(l, i)
      ELSE Then(r, LAMBDA a, j : PInfix(ts, a, j, prec, inPath, cs))

PPrec(ts, i, prec, inPath, cs) == Then(PPrefix(ts, i, inPath, cs), LAMBDA a, j : PInfix(ts, a, j, prec, inPath, cs))

(* The tree of a whole token sequence, [ok, a] *)
ParseAll(ts, cs) == Then(PPrec(ts, 1, 0, FALSE, cs), LAMBDA a, j : IF j = Len(ts) + 1 THEN Good(a, j) ELSE Bad)

--------------------------------------------------------------------------
(* The printed form of a tree *)
OpName == [neg |-> B("-"), inv |-> B("~"), not |-> B("not"), len |-> B("#"), typeof |-> B("typeof"), bool |-> B("?"),
           int |-> B("int"), float |-> B("float"), string |-> B("string"),
           add |-> B("+"), sub |-> B("-"), mul |-> B("*"), div |-> B("/"), mod |-> B("%"), eq |-> B("=="), ne |-> B("!="),
           lt |-> B("<"), le |-> B("<="), gt |-> B(">"), ge |-> B(">="), band |-> B("&"), bor |-> B("|"), bxor |-> B("^"),
           shl |-> B("<<"), shr |-> B(">>"), path |-> B("."), index |-> B("index"), sub2 |-> B("sub"), and |-> B("and"), or |-> B("or")]
Sp == <<32>>
List(head, parts) == <<40>> \o head \o FoldLeft(LAMBDA s, x : s \o Sp \o x, <<>>, parts) \o <<41>>
Quoted(s) == <<34>> \o s \o <<34>>
ConstText(vs) ==
  IF Len(vs) = 1 THEN (IF vs[1].t = "string" THEN Quoted(vs[1].p) ELSE TextOf(vs[1]))
  \* (the separator is left out while the list is still empty, as after an empty string)
  ELSE <<123>> \o FoldLeft(LAMBDA s, v : IF s = <<>> THEN TextOf(v) ELSE s \o Sp \o TextOf(v), <<>>, vs) \o <<125>>
RECURSIVE Show(_)
Show(e) ==
  CASE e.k = "const" -> ConstText(e.vs)
    [] e.k = "field" -> e.s
    [] e.k = "child" -> <<42>>
    [] e.k = "wild" -> <<42, 42>>
    [] e.k \in {"path", "index", "and", "or"} -> List(OpName[e.k], <<Show(e.l), Show(e.r)>>)
    [] e.k = "sub" -> List(OpName["sub2"], <<Show(e.l), Show(e.r)>>)
    [] e.k = "un" -> IF e.o = "null" THEN NullS ELSE List(OpName[e.o], <<Show(e.e)>>)
    [] e.k = "bin" -> List(OpName[e.o], <<Show(e.l), Show(e.r)>>)
    [] e.k = "unpack" -> List(<<46,46,46>>, <<Show(e.e)>>)
    [] e.k = "uword" -> List(e.s, <<Show(e.e)>>)
    [] e.k = "bword" -> List(e.s, <<Show(e.l), Show(e.r)>>)
    [] e.k = "call" -> List(e.s, [j \in 1..Len(e.a) |-> Show(e.a[j])])
============================================================================
