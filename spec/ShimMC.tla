------------------------------- MODULE ShimMC -------------------------------
(***************************************************************************)
(* Every history of the host for a set of small programs: when the bodies  *)
(* and the headers arrive, in which order outstanding calls are answered,  *)
(* and how.  The programs (with the chunks their bodies arrive in) are     *)
(* read from a file.  hist is a history variable, hidden by the view; the  *)
(* behaviours it spells are replayed into the code.                        *)
(***************************************************************************)
EXTENDS ShimProps, Json, IOUtils

\* read once, and kept: TLC would evaluate the definitions at every use
ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
ASSUME TLCSet(3, TLCEval([i \in DOMAIN TLCGet(2) |-> Load(TLCGet(2)[i])]))
Progs == TLCGet(3)
VARIABLES pid, S, G, iq, is, hist
vars == <<pid, S, G, iq, is, hist>>

Init == /\ pid \in DOMAIN Progs
        /\ S = Init0(Progs[pid])
        /\ G = Ghost0
        /\ iq = 0 /\ is = 0 /\ hist = <<>>

NoC == [set |-> EmptyFun, n |-> 0, bad |-> FALSE, close |-> FALSE, eos |-> FALSE]
E(ev) == [ev |-> ev, eos |-> FALSE, chunk |-> NoC, tok |-> 0, res |-> ""]

ResOf(P, id) == IF Known(P, id) /\ "res" \in DOMAIN Act(P, id) THEN Act(P, id).res ELSE P.res
Do(e, code) ==
    LET P == Progs[pid]
        T == Step(P, S, e) IN
    /\ Possible(S, e)
    /\ S' = T
    /\ G' = Mon(P, G, e, T.o)
    /\ hist' = Append(hist, code)
    /\ UNCHANGED pid

ReqHeaders  == Do([E("reqh") EXCEPT !.eos = Progs[pid].req = <<>>], "h") /\ UNCHANGED <<iq, is>>
ReqBody     == /\ iq < Len(Progs[pid].req)
               /\ Do([E("reqb") EXCEPT !.chunk = Progs[pid].req[iq + 1]], "b")
               /\ iq' = iq + 1 /\ UNCHANGED is
RespHeaders == Do([E("resph") EXCEPT !.eos = Progs[pid].resp = <<>>], "H") /\ UNCHANGED <<iq, is>>
RespBody    == /\ is < Len(Progs[pid].resp)
               /\ Do([E("respb") EXCEPT !.chunk = Progs[pid].resp[is + 1]], "B")
               /\ is' = is + 1 /\ UNCHANGED iq
Reply_      == /\ S.pl # "none"
               /\ \E c \in Range(S.d) : \E r \in Range(ResOf(Progs[pid], c.id)) :
                     Do([E("grpc") EXCEPT !.tok = c.tok, !.res = r], ToString(c.tok) \o r)
               /\ UNCHANGED <<iq, is>>
Next == ReqHeaders \/ ReqBody \/ RespHeaders \/ RespBody \/ Reply_
Spec == Init /\ [][Next]_vars

\* what the future can depend on; the last observation is not part of it
View == <<pid, [S EXCEPT !.o = 0], G, iq, is>>
PrintEdge == PrintT(<<"E", pid, ToJson(hist')>>)

Holds == G.viol = {}
\* the barrier counts exactly the guard calls without an answer
BarrierCounts == S.bar = Cardinality({ i \in DOMAIN S.d : S.d[i].guard })
TokensUnique  == \A i, j \in DOMAIN S.d : i # j => S.d[i].tok # S.d[j].tok
\* nothing is paused for ever: without an outstanding call, nothing is paused
NeverStuck == S.d = <<>> => (S.h.reqp = 0 \/ S.h.lr) /\ (S.h.respp = 0 \/ (S.h.lr /\ S.h.lrresp))
\* an answered request makes no calls but the export of its trace
Quiet == S.term => S.q = <<>> /\ \A i \in DOMAIN S.d : S.d[i].noop
\* calls and their replies: one entry per call without an answer
OneEach == \A i \in DOMAIN S.d : ~S.d[i].noop => \E c \in G.out : c.tok = ToString(S.d[i].tok) /\ c.id = S.d[i].id
=============================================================================
