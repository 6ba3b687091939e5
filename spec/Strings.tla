-------------------------------- MODULE Strings --------------------------------
(***************************************************************************)
(* The functions on texts that expressions may use.  A text is a sequence  *)
(* of characters, whatever number of bytes each takes, and every position  *)
(* and length counts characters.  An answer is                             *)
(*   <<"num", n>>   <<"str", text>>   <<"list", texts>>   or  <<"err">>    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Upper == <<"A", "B", "C", "X", "Y", "Z">>
Lower == <<"a", "b", "c", "x", "y", "z">>
Space == {" ", "\t", "NBSP", "EMSP"}
At(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Has(q, x) == \E i \in DOMAIN q : q[i] = x
Lc(c) == IF Has(Upper, c) THEN Lower[At(Upper, c)] ELSE c
Uc(c) == IF Has(Lower, c) THEN Upper[At(Lower, c)] ELSE c
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
From(s, i) == SubSeq(s, i + 1, Len(s))

\* the positions, from 0, at which t occurs in s
Occurs(s, t) == { i \in 0..Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t }
FirstIn(P) == IF P = {} THEN -1 ELSE Mn(P)
LastIn(P) == IF P = {} THEN -1 ELSE Mx(P)
IndexOf(s, t) == FirstIn(Occurs(s, t))
IndexOfAt(s, t, from) == IF from < 0 \/ from >= Len(s) THEN -1 ELSE FirstIn({ i \in Occurs(s, t) : i >= from })
LastIndexOf(s, t) == LastIn(Occurs(s, t))
LastIndexOfAt(s, t, from) == IF from < 0 \/ from >= Len(s) THEN -1 ELSE LastIn({ i \in Occurs(s, t) : i <= from })

\* the pieces between the occurrences of t, at most n of them (n < 0: as many as there are)
RECURSIVE Split(_, _, _)
Split(s, t, n) ==
    IF n = 0 THEN <<>>
    ELSE IF n = 1 \/ IndexOf(s, t) < 0 THEN <<s>>
    ELSE LET i == IndexOf(s, t) IN <<SubSeq(s, 1, i)>> \o Split(From(s, i + Len(t)), t, n - 1)
RECURSIVE Join(_, _)
Join(l, t) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o t \o Join(Tail(l), t)
\* nothing occurs before every character and at the end
RECURSIVE Between(_, _, _)
Between(s, u, n) == IF n = 0 THEN s ELSE IF s = <<>> THEN u ELSE u \o <<s[1]>> \o Between(Tail(s), u, n - 1)
Replace(s, t, u, n) == IF t = <<>> THEN Between(s, u, n) ELSE Join(Split(s, t, IF n < 0 THEN -1 ELSE n + 1), u)

RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Space THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Clip(s, a, b) == SubSeq(s, a + 1, IF b > Len(s) THEN Len(s) ELSE b)

\* e: what is asked, of text s, with texts t and u, list l, and numbers a and b
Eval(e) ==
    LET s == e.s  t == e.t  u == e.u  a == e.a  b == e.b IN
    CASE e.op = "indexOf" -> <<"num", IndexOf(s, t)>>
      [] e.op = "indexOfAt" -> <<"num", IndexOfAt(s, t, a)>>
      [] e.op = "lastIndexOf" -> <<"num", LastIndexOf(s, t)>>
      [] e.op = "lastIndexOfAt" -> <<"num", LastIndexOfAt(s, t, a)>>
      [] e.op = "charAt" -> IF a < 0 \/ a >= Len(s) THEN <<"err">> ELSE <<"str", <<s[a + 1]>>>>
      [] e.op = "substring" -> IF a > Len(s) THEN <<"err">> ELSE <<"str", From(s, a)>>
      [] e.op = "substring2" -> IF b < a THEN <<"err">> ELSE <<"str", Clip(s, a, b)>>
      [] e.op = "lowerAscii" -> <<"str", Map(Lc, s)>>
      [] e.op = "upperAscii" -> <<"str", Map(Uc, s)>>
      [] e.op = "trim" -> <<"str", RTrim(LTrim(s))>>
      [] e.op = "replace" -> <<"str", Replace(s, t, u, -1)>>
      [] e.op = "replaceN" -> <<"str", Replace(s, t, u, a)>>
      [] e.op = "split" -> <<"list", Split(s, t, -1)>>
      [] e.op = "splitN" -> <<"list", Split(s, t, a)>>
      [] e.op = "join" -> <<"str", Join(e.l, <<>>)>>
      [] e.op = "joinWith" -> <<"str", Join(e.l, t)>>
      \* answers are numbers and texts that further functions take
      [] e.op = "before" -> LET i == IndexOf(s, t) IN <<"str", IF i < 0 THEN s ELSE SubSeq(s, 1, i)>>
      [] e.op = "after" -> LET i == IndexOf(s, t) + Len(t) IN IF i > Len(s) THEN <<"err">> ELSE <<"str", From(s, i)>>
      [] e.op = "afterLast" -> LET i == LastIndexOf(s, t) + 1 IN IF i > Len(s) THEN <<"err">> ELSE <<"str", From(s, i)>>
=============================================================================
