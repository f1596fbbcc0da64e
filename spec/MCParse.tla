------------------------------ MODULE MCParse ------------------------------
(* (1) Every token sequence up to a length is parsed; the tree of those     *)
(*     that are accepted prints to a text that parses to the same tree.     *)
(* (2) Every tree up to a depth prints to a text that parses to it, with    *)
(*     and without superfluous parentheses.                                 *)
EXTENDS Print, TLC, CSV, IOUtils, Json
CONSTANTS MaxToks, Leaves, BinSet
VARIABLES s, ok, w        \* tokens (indexes), verdict, weight

T(t) == [t |-> t, v |-> NoVal]
Word(n) == [t |-> "WORD", v |-> [k |-> "str", s |-> n]]
Alphabet == << Word(B("a")), [t |-> "INT", v |-> [k |-> "int", w |-> WInt(1)]], T("OP_SUB"), T("OP_TIMES"), T("OP_EQ"), T("OP_AND"), T("DOT"), T("OP_BOOL"),
               T("OP_CAST"), T("LPAREN"), T("RPAREN"), T("LBRACE"), T("RBRACE"), T("LBRACK"), T("RBRACK"), T("COMMA"), T("C_NULL"), T("OP_UNPACK"), T("OP_NOT") >>
Spell == << B("a"), B("1"), B("-"), B("*"), B("=="), B("and"), B("."), B("?"), B("as"), B("("), B(")"), B("{"), B("}"), B("["), B("]"), B(","), B("null"), B("..."), B("not") >>

TextOfToks(q) == FoldLeft(LAMBDA acc, j : IF acc = <<>> THEN Spell[j] ELSE acc \o Sp \o Spell[j], <<>>, q)
Emit(text) == IF "VT_EMIT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(text)>>, IOEnv.VT_EMIT) ELSE TRUE

(* What is accepted is exactly what some tree prints to, up to parentheses *)
Depth(q, open, close) == FoldLeft(LAMBDA d, j : IF d < 0 THEN d ELSE IF Alphabet[j].t = open THEN d + 1 ELSE IF Alphabet[j].t = close THEN d - 1 ELSE d, 0, q)
Balanced(q) == Depth(q, "LPAREN", "RPAREN") = 0 /\ Depth(q, "LBRACE", "RBRACE") = 0 /\ Depth(q, "LBRACK", "RBRACK") = 0
CheckToks(q) ==
  LET p == ParseAll([j \in 1..Len(q) |-> Alphabet[q[j]]], <<>>)
  IN  IF ~p.ok THEN TRUE
      ELSE Balanced(q) /\ p.i = Len(q) + 1 /\ RoundTrips(p.a)

Init == s = <<>> /\ ok = TRUE /\ w = 0
Next == /\ Len(s) < MaxToks
        /\ \E j \in 1..Len(Alphabet) :
             /\ s' = Append(s, j)
             /\ ok' = CheckToks(s')
             /\ Emit(TextOfToks(s'))
        /\ UNCHANGED w

--------------------------------------------------------------------------
LeafTrees == << Field(B("a")), Const(IntV(WInt(1))), [k |-> "child"], Const(StrV(B("x"))), [k |-> "wild"], Field(SelfS), Const(NullV), Const(BoolV(TRUE)) >>
L0 == {LeafTrees[j] : j \in 1..Leaves}
UnOps == {"neg", "not", "len", "bool", "int", "typeof", "inv", "string", "float", "null"}
AllBin == IF BinSet = "all" THEN {BinOps[t] : t \in DOMAIN BinOps} ELSE {"add", "mul", "eq", "lt", "band"}
UnTrees(L) == {Un(o, x) : o \in UnOps, x \in L} \cup {[k |-> "unpack", e |-> x] : x \in L} \cup {[k |-> "uword", s |-> B("foo"), e |-> x] : x \in L}
BinTrees(L, R) ==
  {Bin(o, l, r) : o \in AllBin, l \in L, r \in R} \cup {Node2(k, l, r) : k \in {"path", "sub", "index", "and", "or"}, l \in L, r \in R}
  \cup {[k |-> "bword", s |-> B("foo"), l |-> l, r |-> r] : l \in L, r \in R}
CallTrees(L, R) == {[k |-> "call", s |-> B("f"), a |-> <<l, r>>, id |-> 0] : l \in L, r \in R} \cup {[k |-> "call", s |-> B("f"), a |-> <<l>>, id |-> 0] : l \in L}
L1 == L0 \cup UnTrees(L0) \cup BinTrees(L0, L0) \cup CallTrees(L0, L0) \cup {[k |-> "call", s |-> B("f"), a |-> <<>>, id |-> 0]}
TInit == s \in L1 /\ ok = TRUE /\ w = 1
TNext == /\ w = 1 /\ w' = 2
         /\ \E e \in {s} \cup UnTrees({s}) \cup BinTrees({s}, L0) \cup BinTrees(L0, {s}) \cup CallTrees({s}, L0) \cup CallTrees(L0, {s})
                     \cup (IF Leaves > 2 THEN {} ELSE BinTrees({s}, L1)) :
              s' = e /\ ok' = RoundTrips(e) /\ Emit(Src(e, FALSE))
Sound == ok
============================================================================
