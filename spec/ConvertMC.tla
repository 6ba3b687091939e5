------------------------------- MODULE ConvertMC -------------------------------
(* A value goes into a field of a call, over the wire, and is read from the    *)
(* same field of a reply; whole messages go the other way round and out again. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.TRACE_FILE))
In == TLCGet(2)
T32(d) == In.f32[d]
TDbl(n) == In.dbl[n]
INSTANCE Convert WITH F32 <- T32, DblOf <- TDbl
VARIABLES at,     \* "value", "sent", "read" for a value; "reply", "seen", "passed" for a message; "case"
          fi,     \* the field
          v,      \* the value given, or the message that came
          w,      \* what went over the wire, or what was seen
          back    \* what was read, or went over the wire in turn
vars == <<at, fi, v, w, back>>
Wrap(f, x, key) == CASE f.c = "rep" -> [k |-> "list", l |-> <<x>>]
                     [] f.c = "map" -> [k |-> "map", e |-> << <<key, x>> >>]
                     [] OTHER -> x
Init == \/ /\ at = "value" /\ fi \in DOMAIN Big /\ back = ERR /\ w = ERR
           /\ \E x \in DOMAIN In.pool, key \in DOMAIN In.keys :
                 /\ Big[fi].c = "map" \/ key = 1
                 /\ v = Wrap(Big[fi], In.pool[x], In.keys[key])
        \/ /\ at = "reply" /\ fi = 0 /\ back = ERR /\ w = ERR
           /\ \E x \in DOMAIN In.msgs : v = In.msgs[x]
        \/ /\ at = "case" /\ fi = 0 /\ back = ERR /\ w = ERR
           /\ \E x \in DOMAIN In.cases : v = In.cases[x]
Send == at = "value" /\ w' = ToField(Big[fi], v) /\ at' = "sent" /\ UNCHANGED <<fi, v, back>>
Read == at = "sent" /\ w.k # "err" /\ back' = FromField(Big[fi], w) /\ at' = "read" /\ UNCHANGED <<fi, v, w>>
See == at = "reply" /\ w' = FromMsg("Resp", v) /\ at' = "seen" /\ UNCHANGED <<fi, v, back>>
Pass == at = "seen" /\ w.k # "err" /\ back' = ToMsg("Req", [w EXCEPT !.t = "Req"]) /\ at' = "passed" /\ UNCHANGED <<fi, v, w>>
Done == at = "case" /\ w' = Outcome(v) /\ at' = "done" /\ UNCHANGED <<fi, v, back>>
Next == Send \/ Read \/ See \/ Pass \/ Done
Spec == Init /\ [][Next]_vars

Dynamic(f) == f.m \in {"Struct", "Value", "ListV"}
One(f, x) == CASE f.c = "rep" -> IF x.k = "list" THEN x.l[1] ELSE ERR [] f.c = "map" -> IF x.k = "map" THEN x.e[1][2] ELSE ERR [] OTHER -> x
\* what is read is what was given, to single precision if the field has no more
Faithful == at = "read" /\ ~Dynamic(Big[fi]) =>
    \/ back = v
    \/ Big[fi].t = "f32" /\ One(Big[fi], back) = [k |-> "dbl", d |-> T32(One(Big[fi], v).d)]
    \/ One(Big[fi], v).k = "struct" /\ ToField(Big[fi], back) = w   \* defaults are filled in
    \/ Big[fi].m = "Ts" /\ One(Big[fi], v).k = "struct"             \* a time given as a message is read as a time, or not at all
\* a value that is not of the field's kind does not go out
Kinds == at = "sent" /\ w.k # "err" =>
    LET one == [Big[fi] EXCEPT !.c = "one"]  x == One(Big[fi], v) IN
    /\ Big[fi].c # "one" => TypeOk(Big[fi], v)
    /\ TypeOk(one, x) \/ (x.k = "struct" /\ x.t = one.m)
\* a field takes all that a narrower one takes
Wider == at = "sent" /\ w.k # "err" =>
    /\ Big[fi].t = "i32" => ToField([Big[fi] EXCEPT !.t = "i64"], v) = w
    /\ Big[fi].t = "u32" => ToField([Big[fi] EXCEPT !.t = "u64"], v) = w
    /\ Big[fi].t = "enum" => ToField([Big[fi] EXCEPT !.t = "i32"], v) = w
    /\ Big[fi].t \in {"i64", "u64"} /\ Big[fi].c = "one" => w = v
\* a reply that is passed on arrives as it came
RECURSIVE HasDynamic(_, _)
HasDynamic(m, x) == \E i \in DOMAIN x.f : \E j \in DOMAIN Msgs[m] : Msgs[m][j].n = x.f[i][1] /\ Dynamic(Msgs[m][j])
                       /\ (Msgs[m][j].c # "rep" \/ x.f[i][2].l # <<>>)
BadEnum(x) == \E i \in DOMAIN x.f : \E j \in DOMAIN Big : Big[j].n = x.f[i][1] /\ Big[j].t = "enum"
                       /\ \E e \in (CASE Big[j].c = "rep" -> { x.f[i][2].l[q] : q \in DOMAIN x.f[i][2].l }
                                      [] Big[j].c = "map" -> { x.f[i][2].e[q][2] : q \in DOMAIN x.f[i][2].e }
                                      [] OTHER -> { x.f[i][2] }) : e.n[1] \notin Enum
PassedOn == at = "passed" =>
    \/ back = v
    \/ back = ERR /\ (HasDynamic("Resp", v) \/ BadEnum(v))
\* what is stored reads as what it was, numbers as numbers of double precision
RECURSIVE Norm(_)
Norm(x) == CASE x.k \in {"int", "uint"} -> [k |-> "dbl", d |-> TDbl(x.n[1])]
             [] x.k = "bytes" -> [k |-> "str", s |-> x.s]
             [] x.k = "list" -> [k |-> "list", l |-> [i \in DOMAIN x.l |-> Norm(x.l[i])]]
             [] x.k = "map" -> [k |-> "map", e |-> [i \in DOMAIN x.e |-> <<x.e[i][1], Norm(x.e[i][2])>>]]
             [] OTHER -> x
Stored == at = "value" => LET s == ToValue(v) IN s.k # "err" => FromOne([Msgs.ListV[1] EXCEPT !.c = "one"], s) = Norm(v)
\* a call that was not made, or not answered, has no consequences but those of failing
Quiet == at = "done" =>
    /\ w.sent.k = "err" \/ v.rep.k = "err" => w.second.k = "err" /\ w.exp.as = "none" /\ w.hs = <<>> /\ w.answer \in {Failed, None}
    /\ w.answer = Failed /\ w.sent.k = "err" => v.deny
    /\ w.answer = None => ~v.answers \/ ~v.deny
=============================================================================
