------------------------------- MODULE AttrsMC -------------------------------
(* Every history of the host for small programs: what it has, when it      *)
(* changes, when calls are answered.  The monitor sees events and effects. *)
EXTENDS Attrs, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
Progs == TLCGet(2)
MaxEvents == 4
\* seen: <<attribute, exported value>>; held: <<attribute, value>> the host has had; req, resp: the header lists
\* ok: every header list set was the one it had to be
VARIABLES pid, S, path, seen, held, req, resp, ok
vars == <<pid, S, path, seen, held, req, resp, ok>>
P == Progs[pid]
Init == /\ pid \in DOMAIN Progs /\ S = Init0(Progs[pid]) /\ path = <<>>
        /\ seen = {} /\ held = {} /\ req = <<>> /\ resp = <<>> /\ ok = TRUE
Log(code) == PrintT(<<"E", pid, ToJson(Append(path, code))>>)

\* what a host change lets "addr" and "raddr" be seen as
Held(c) == IF c.k = "none" THEN { <<c.n, Null>> } \cup (IF c.n = "addr" THEN { <<"raddr", Null>> } ELSE {})
           ELSE IF c.k # "val" THEN {}
           ELSE IF c.n = "addr" THEN { <<"addr", <<"str", AddrText(c.x)>>>>, <<"raddr", <<"str", c.x.ip>>>> }
           ELSE { <<c.n, c.x>> }
Exports(o) == UNION { IF o[i][1] # "P" THEN {}
                      ELSE LET a == P.acts[CHOOSE j \in DOMAIN P.acts : ToString(j) = o[i][2]] IN
                           IF a.k # "read" THEN {} ELSE { <<a.as[j], o[i][3][j]>> : j \in DOMAIN a.as } : i \in DOMAIN o }

Others(hs, ns) == SelectSeq(hs, LAMBDA h : h[1] \notin ns)
Of(hs, n) == SelectSeq(hs, LAMBDA h : h[1] = n)
\* one header change: the set names have one value each, everything else is as it was
Proper(old, new, a) ==

    /\ \A n \in { p.n : p \in Range(a.pairs) } : Len(Of(new, n)) = 1 \/ Of(new, n) = Of(old, n)
    /\ \A n \in { p.n : p \in Range(a.pairs) } :
          LET ps == SelectSeq(a.pairs, LAMBDA p : p.n = n) IN
          \* texts are always set; the last one counts
          (\A k \in DOMAIN ps : ps[k].a = "") => Of(new, n) = << <<n, ps[Len(ps)].v>> >>
    /\ LET ns == { p.n : p \in Range(a.pairs) } IN Others(new, ns) = Others(old, ns)
RECURSIVE Replay(_, _, _, _)
\* the header lists after the effects o, and whether each change was proper; i: the action looked for next
Replay(o, rq, rs, good) ==
    IF o = <<>> THEN <<rq, rs, good>>
    ELSE IF Head(o)[1] # "H" THEN Replay(Tail(o), rq, rs, good)
    ELSE LET t == Head(o)[2]
             new == Head(o)[3]
             old == IF t = "req" THEN rq ELSE rs
             some == \E j \in DOMAIN P.acts : P.acts[j].k = "set" /\ P.acts[j].tgt = t /\ Proper(old, new, P.acts[j])
         IN Replay(Tail(o), IF t = "req" THEN new ELSE rq, IF t = "resp" THEN new ELSE rs, good /\ some)

Ev(ev, code, hs) ==
    /\ Len(path) < MaxEvents
    /\ Possible(S, [ev |-> ev])
    \* a guard call holds the stream
    /\ ev # "answer" => ~(S.out /\ P.acts[S.at].guard)
    /\ \E c \in {0} \cup DOMAIN P.vals :
       LET chg == (IF ev = "reqh" THEN P.first ELSE <<>>) \o (IF c = 0 THEN <<>> ELSE << P.vals[c] >>)
           T == Step(P, S, [ev |-> ev, hs |-> hs, chg |-> chg])
           r == Replay(T.o, IF ev = "reqh" THEN hs ELSE req, IF ev = "resph" THEN hs ELSE resp, TRUE)
       IN /\ S' = T /\ path' = Append(path, <<code, c>>) /\ UNCHANGED pid
          /\ seen' = seen \cup Exports(T.o)
          /\ held' = held \cup UNION { Held(chg[i]) : i \in DOMAIN chg }
                     \cup (IF ev = "reqh" THEN { <<n, Null>> : n \in Range(P.attrs) } ELSE {})
          /\ req' = r[1] /\ resp' = r[2] /\ ok' = r[3]
          /\ Log(<<code, c>>)
Next == Ev("reqh", "h", P.reqhs) \/ Ev("resph", "H", P.resphs) \/ Ev("answer", "a", <<>>) \/ Ev("other", "b", <<>>)
Spec == Init /\ [][Next]_vars

Stable == \A x, y \in seen : x[1] = y[1] => x = y
FromHost == \A x \in seen : x \in held
HeadersProper == ok /\ req = S.req /\ resp = S.resp
\* actions take effect in their order
InOrder == LET is == SelectSeq(S.o, LAMBDA x : x[1] = "P") IN \A i, j \in DOMAIN is : i < j => is[i][2] # is[j][2]
=============================================================================
