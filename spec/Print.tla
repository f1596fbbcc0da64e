------------------------------- MODULE Print -------------------------------
(* Source text of a tree, with as few or as many parentheses as possible.   *)
EXTENDS Parse

TokText == [OP_ADD |-> B("+"), OP_SUB |-> B("-"), OP_TIMES |-> B("*"), OP_DIV |-> B("/"), OP_MOD |-> B("%"),
            OP_BITAND |-> B("&"), OP_BITOR |-> B("|"), OP_BITXOR |-> B("^"), OP_LSHIFT |-> B("<<"), OP_RSHIFT |-> B(">>"),
            OP_EQ |-> B("=="), OP_NOT_EQ |-> B("!="), OP_LT |-> B("<"), OP_LTEQ |-> B("<="), OP_GT |-> B(">"), OP_GTEQ |-> B(">="),
            OP_BITINV |-> B("~"), OP_NOT |-> B("not"), OP_LEN |-> B("#"), OP_TYPEOF |-> B("typeof"), OP_AND |-> B("and"), OP_OR |-> B("or")]
TokOfBin == [o \in {BinOps[t] : t \in DOMAIN BinOps} |-> CHOOSE t \in DOMAIN BinOps : BinOps[t] = o]
TokOfPre == [o \in {PrefixOps[t] : t \in DOMAIN PrefixOps} |-> CHOOSE t \in DOMAIN PrefixOps : PrefixOps[t] = o]

Atom == 100
PrecOf(e) ==
  CASE e.k \in {"const", "field", "child", "wild", "call"} -> Atom
    [] e.k = "path" -> 12
    [] e.k = "sub" -> 11
    [] e.k = "index" -> 10
    [] e.k = "unpack" -> 9
    [] e.k = "un" -> CASE e.o = "bool" -> 9 [] e.o \in {"int", "float", "string", "null"} -> 7 [] OTHER -> UnaryPrec
    [] e.k = "bword" -> 7
    [] e.k = "uword" -> 0                     \* always in parentheses: what follows could be its operand
    [] e.k = "bin" -> InfixPrec(TokOfBin[e.o])
    [] e.k \in {"and", "or"} -> 1

ConstSrc(v) == CASE v.t = "string" -> <<39>> \o v.p \o <<39>> [] OTHER -> TextOf(v)
Paren(s) == <<40, 32>> \o s \o <<32, 41>>
Join(a, b) == a \o Sp \o b

(* full: parentheses around every operand *)
RECURSIVE Src(_, _)
Src(e, full) ==
  LET par(x, need) == IF need \/ full THEN Paren(Src(x, full)) ELSE Src(x, full)
      own == IF e.k = "uword" THEN 7 ELSE PrecOf(e)
      left(x) == par(x, PrecOf(x) < own)
      right(x) == par(x, PrecOf(x) <= own)
      infix(op) == Join(Join(left(e.l), op), right(e.r))
  IN
  CASE e.k = "const" -> ConstSrc(e.vs[1])
    [] e.k = "field" -> e.s
    [] e.k = "child" -> <<42>>
    [] e.k = "wild" -> <<42, 42>>
    \* (parentheses would change the meaning of a word behind a dot)
    [] e.k = "path" -> Join(Join(left(e.l), <<46>>), IF e.r.k = "field" THEN e.r.s ELSE right(e.r))
    [] e.k = "sub" -> left(e.l) \o B(" { ") \o Src(e.r, full) \o B(" }")
    [] e.k = "index" -> left(e.l) \o B(" [ ") \o Src(e.r, full) \o B(" ]")
    [] e.k = "unpack" -> Join(left(e.e), B("..."))
    [] e.k = "un" ->
         (CASE e.o = "bool" -> Join(left(e.e), B("?"))
            [] e.o \in {"int", "float", "string", "null"} -> Join(left(e.e), Join(B("as"), IF e.o = "null" THEN NullS ELSE OpName[e.o]))
            [] OTHER -> Join(TokText[TokOfPre[e.o]], par(e.e, PrecOf(e.e) < UnaryPrec)))
    [] e.k = "bin" -> infix(TokText[TokOfBin[e.o]])
    [] e.k \in {"and", "or"} -> infix(OpName[e.k])
    [] e.k = "bword" -> infix(e.s)
    [] e.k = "uword" -> Join(left(e.e), e.s)
    [] e.k = "call" -> e.s \o <<40>> \o FoldLeft(LAMBDA s, x : IF s = <<>> THEN Src(x, full) ELSE s \o B(" , ") \o Src(x, full), <<>>, e.a) \o <<41>>

(* Without the positions of calls *)
RECURSIVE Plain(_)
Plain(e) ==
  CASE e.k = "call" -> [k |-> "call", s |-> e.s, a |-> [j \in 1..Len(e.a) |-> Plain(e.a[j])], id |-> 0]
    [] e.k \in {"path", "sub", "index", "and", "or", "bin", "bword"} -> [e EXCEPT !.l = Plain(@), !.r = Plain(@)]
    [] e.k \in {"un", "unpack", "uword"} -> [e EXCEPT !.e = Plain(@)]
    [] OTHER -> e
TreeOf(src) == LET l == LexAll(src) IN IF ~l.ok THEN Bad ELSE ParseAll(l.toks, <<>>)
RoundTrips(e) == \A full \in BOOLEAN : LET p == TreeOf(Src(e, full)) IN p.ok /\ Plain(p.a) = Plain(e)
============================================================================
