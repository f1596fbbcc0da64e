------------------------------- MODULE MCWord ------------------------------
(* Every word up to a length in every kind of position: what it stands for, *)
(* stated independently of the parser.                                      *)
EXTENDS Print, TLC, CSV, IOUtils, Json
CONSTANTS MaxLen, Extra
VARIABLES w, ctx, ok

Chars == {97, 65, 49, 95} \cup (IF Extra THEN {122, 90} ELSE {})
Heads == Chars \ {49}
Words == {q \in UNION {[1..n -> Chars] : n \in 1..MaxLen} : q[1] \in Heads /\ q # SelfS}
Given == << [n |-> B("aA"), v |-> IntV(WInt(5))], [n |-> B("A1"), v |-> IntV(WInt(6))], [n |-> B("_a"), v |-> NullV] >>
Upper(q) == \E i \in 1..Len(q) : q[i] \in 65..90
Symbol(q) == Upper(q) /\ \A i \in 1..Len(q) : q[i] \in (65..90) \cup (48..57) \cup {95}

(* Meaning of a word outside of a path: symbol, constant or field *)
Alone(q) == IF Symbol(q) THEN Const(StrV(q))
            ELSE LET m == {i \in 1..Len(Given) : SameName(Given[i].n, q)}
                 IN  IF m = {} THEN Field(q) ELSE Const(Given[CHOOSE i \in m : TRUE].v)
(* the same in front of a dot: no symbols there *)
AtDot(q) == LET m == {i \in 1..Len(Given) : SameName(Given[i].n, q)}
            IN  IF m = {} THEN Field(q) ELSE Const(Given[CHOOSE i \in m : TRUE].v)
FB == Field(B("b"))
CallW(q, a) == [k |-> "call", s |-> q, a |-> a, id |-> 0]
Contexts == << "w", "w.b", "b.w", "b.w.b", "(w)", "(w).b", "b.(w)", "b{w}", "b[w]", "b.b[w]", "b.b{w}", "f(w)", "b.f(w)", "w()", "w(b)", "b.w()", "w?", "-w", "b.-w", "b + w", "w + b", "b.w + b",
               "w.w", "w w", "b{w.b}", "w as int", "b.b.w", "_.w", "*.w", "w{b}", "w[b]", "b.w{b}" >>
Spec(c, q) ==     \* [text, tree]
  CASE c = "w" -> <<q, Alone(q)>>
    [] c = "w.b" -> <<q \o B(".b"), Node2("path", AtDot(q), FB)>>
    [] c = "b.w" -> <<B("b.") \o q, Node2("path", FB, Field(q))>>
    [] c = "b.w.b" -> <<B("b.") \o q \o B(".b"), Node2("path", Node2("path", FB, Field(q)), FB)>>
    [] c = "(w)" -> <<Paren(q), Alone(q)>>
    [] c = "(w).b" -> <<Paren(q) \o B(".b"), Node2("path", Alone(q), FB)>>
    [] c = "b.(w)" -> <<B("b.(") \o q \o B(")"), Node2("path", FB, Alone(q))>>
    [] c = "b{w}" -> <<B("b{") \o q \o B("}"), Node2("sub", FB, Alone(q))>>
    [] c = "b[w]" -> <<B("b[") \o q \o B("]"), Node2("index", FB, Alone(q))>>
    [] c = "b.b[w]" -> <<B("b.b[") \o q \o B("]"), Node2("index", Node2("path", FB, FB), Alone(q))>>
    [] c = "b.b{w}" -> <<B("b.b{") \o q \o B("}"), Node2("sub", Node2("path", FB, FB), Alone(q))>>
    [] c = "f(w)" -> <<B("f(") \o q \o B(")"), CallW(B("f"), <<Alone(q)>>)>>
    [] c = "b.f(w)" -> <<B("b.f(") \o q \o B(")"), Node2("path", FB, CallW(B("f"), <<Alone(q)>>))>>
    [] c = "w()" -> <<q \o B("()"), CallW(q, <<>>)>>
    [] c = "w(b)" -> <<q \o B("(b)"), CallW(q, <<FB>>)>>
    [] c = "b.w()" -> <<B("b.") \o q \o B("()"), Node2("path", FB, CallW(q, <<>>))>>
    [] c = "w?" -> <<q \o B("?"), Un("bool", Alone(q))>>
    [] c = "-w" -> <<B("-") \o q, Un("neg", Alone(q))>>
    [] c = "b.-w" -> <<B("b.-") \o q, Node2("path", FB, Un("neg", Field(q)))>>
    [] c = "b + w" -> <<B("b + ") \o q, Bin("add", FB, Alone(q))>>
    [] c = "w + b" -> <<q \o B(" + b"), Bin("add", Alone(q), FB)>>
    [] c = "b.w + b" -> <<B("b.") \o q \o B(" + b"), Bin("add", Node2("path", FB, Field(q)), FB)>>
    [] c = "w.w" -> <<q \o B(".") \o q, Node2("path", AtDot(q), Field(q))>>
    [] c = "w w" -> <<q \o B(" ") \o q, [k |-> "uword", s |-> q, e |-> Alone(q)]>>
    [] c = "b{w.b}" -> <<B("b{") \o q \o B(".b}"), Node2("sub", FB, Node2("path", AtDot(q), FB))>>
    [] c = "w as int" -> <<q \o B(" as int"), Un("int", Alone(q))>>
    [] c = "b.b.w" -> <<B("b.b.") \o q, Node2("path", Node2("path", FB, FB), Field(q))>>
    [] c = "_.w" -> <<B("_.") \o q, Node2("path", Field(SelfS), Field(q))>>
    [] c = "*.w" -> <<B("*.") \o q, Node2("path", [k |-> "child"], Field(q))>>
    [] c = "w{b}" -> <<q \o B("{b}"), Node2("sub", Alone(q), FB)>>
    [] c = "w[b]" -> <<q \o B("[b]"), Node2("index", Alone(q), FB)>>
    [] c = "b.w{b}" -> <<B("b.") \o q \o B("{b}"), Node2("sub", Node2("path", FB, Field(q)), FB)>>

Emit(t) == IF "VT_EMIT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(t)>>, IOEnv.VT_EMIT) ELSE TRUE
Check(c, q) ==
  LET s == Spec(c, q)
      l == LexAll(s[1])
      p == ParseAll(l.toks, Given)
  IN  IF ~l.ok \/ ~p.ok THEN FALSE
      ELSE Plain(p.a) = s[2]

Init == w \in Words /\ ctx = "" /\ ok = TRUE
Next == /\ ctx = "" /\ UNCHANGED w
        /\ \E j \in 1..Len(Contexts) :
             /\ ctx' = Contexts[j]
             /\ ok' = Check(Contexts[j], w)
             /\ Emit(Spec(Contexts[j], w)[1])
Sound == ok
============================================================================
