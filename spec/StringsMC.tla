------------------------------- MODULE StringsMC -------------------------------
(* Laws that tie the functions to one another, for every text of up to     *)
(* MaxLen characters, every sought text of up to 2 and every position.     *)
EXTENDS Strings, IOUtils, Json
MaxLen == atoi(IOEnv.MAX_LEN)
Chars == {"a", "B", "e1", " "}
Texts(n) == UNION { [1..k -> Chars] : k \in 0..n }
VARIABLES s, t, a
vars == <<s, t, a>>
Init == s \in Texts(MaxLen) /\ t = <<>> /\ a = -1
Next == /\ t = <<>> /\ a = -1
        /\ t' \in Texts(2) /\ a' \in -1..MaxLen + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

Found == LET i == IndexOf(s, t)  j == LastIndexOf(s, t) IN
         /\ (i < 0) = (j < 0)
         /\ i >= 0 => i <= j /\ Clip(s, i, i + Len(t)) = t /\ Clip(s, j, j + Len(t)) = t
         /\ \A k \in 0..Len(s) - Len(t) : Clip(s, k, k + Len(t)) = t => i <= k /\ k <= j
\* what is found from a position on is found in what starts there
FromThere == a \in 0..Len(s) - 1 =>
    LET i == IndexOf(From(s, a), t)  j == IndexOfAt(s, t, a) IN j = IF i < 0 THEN -1 ELSE i + a
UpToThere == a \in 0..Len(s) - 1 =>
    LET j == LastIndexOfAt(s, t, a) IN j <= a /\ j = LastIndexOf(Clip(s, 0, a + Len(t)), t)
Cut == a \in 0..Len(s) => Clip(s, 0, a) \o From(s, a) = s
SplitJoin == t # <<>> =>
    LET l == Split(s, t, -1) IN
    /\ Join(l, t) = s
    /\ \A i \in DOMAIN l : IndexOf(l[i], t) < 0
    /\ a > 0 => Join(Split(s, t, a), t) = s /\ Len(Split(s, t, a)) <= a
Replaced == t # <<>> /\ Len(t) = 1 => IndexOf(Replace(s, t, <<"x">>, -1), t) < 0 /\ Len(Replace(s, t, <<"x">>, -1)) = Len(s)
Cases == Map(Lc, Map(Uc, s)) = Map(Lc, s) /\ RTrim(LTrim(s)) = LTrim(RTrim(s))
=============================================================================
