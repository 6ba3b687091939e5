------------------------------- MODULE Legacy -------------------------------
(***************************************************************************)
(* The legacy configuration format: actions that name a service (auth,     *)
(* ratelimit, ratelimit-check, ratelimit-report), a scope, predicates and  *)
(* conditional data; and requestData attached to all of them.  Load gives  *)
(* the meaning of such a program as a program of Shim.                     *)
(*                                                                         *)
(* L.leg   id -> [svc, mode, fault, scope, preds, cond], cond a sequence   *)
(*         of blocks [preds, data], data a sequence of [key, x, sta]       *)
(*         (sta: a static value)                                           *)
(* L.rdata sequence of [dom, field, x, au], sorted; au: mentions "auth."   *)
(* L.env   attribute -> value; L.hdr request header -> value               *)
(* Messages are strings: what the host can read in them, in a fixed order. *)
(***************************************************************************)
EXTENDS Shim

C(v)      == [k |-> "C", f |-> v, num |-> FALSE]
At(f)     == [k |-> "ATTR", f |-> f, w |-> ""]
Port(f)   == [k |-> "PORT", f |-> f, w |-> ""]
Cat(s)    == [k |-> "CAT", s |-> s]
ErrX      == [k |-> "ERR", f |-> "", w |-> ""]
TrueX     == [k |-> "T", f |-> "", w |-> ""]
FalseX    == [k |-> "F", f |-> "", w |-> ""]

RECURSIVE Joined(_, _)
Joined(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE IF Len(parts) = 1 THEN parts
    ELSE <<parts[1], C(sep)>> \o Joined(Tail(parts), sep)

\* all predicates hold; there are none: TRUE
All(ps) == IF ps = <<>> THEN TrueX ELSE IF Len(ps) = 1 THEN ps[1] ELSE [k |-> "AND", s |-> ps]

(***************************************************************************)
(* Rate limiting                                                           *)
(***************************************************************************)
KnownAttrs == {"ratelimit.domain", "ratelimit.hits_addend"}
AllData(a) ==
    LET RECURSIVE Go(_)
        Go(i) == IF i > Len(a.cond) THEN <<>> ELSE a.cond[i].data \o Go(i + 1)
    IN Go(1)
FirstOf(a, key) == SelectSeq(AllData(a), LAMBDA d : d.key = key)

\* the action applies when its predicates hold and those of a block of data, if there are blocks
RlPred(a) ==
    LET blocks == [i \in DOMAIN a.cond |-> All(a.cond[i].preds)] \o <<>>
        any == IF a.cond = <<>> \/ \E i \in DOMAIN a.cond : a.cond[i].preds = <<>> THEN TrueX
               ELSE IF Len(blocks) = 1 THEN blocks[1] ELSE [k |-> "OR", s |-> blocks]
    IN IF a.preds = <<>> THEN any
       ELSE IF any.k = "T" THEN All(a.preds)
       ELSE [k |-> "AND", s |-> <<All(a.preds), any>>]

Entry(key, x) == Cat(<<C(key \o "="), x, C(";")>>)
Entries(data) == LET ds == SelectSeq(data, LAMBDA d : d.key \notin KnownAttrs) IN
                 [i \in DOMAIN ds |-> Entry(ds[i].key, ds[i].x)] \o <<>>
\* the entries of the blocks whose predicates hold
RlDescriptor(a) ==
    LET bs == SelectSeq(a.cond, LAMBDA b : Entries(b.data) # <<>>) IN
    IF bs = <<>> THEN <<>>
    ELSE <<C("{")>> \o [i \in DOMAIN bs |-> LET es == Cat(Entries(bs[i].data)) IN
                          IF bs[i].preds = <<>> THEN es ELSE [k |-> "IF", c |-> All(bs[i].preds), t |-> es]]
                    \o <<C("}")>>
RdKey(r) == IF r.dom \in {"", "metrics.labels"} THEN r.field ELSE r.dom \o "." \o r.field
RdDescriptor(rd) ==
    IF rd = <<>> THEN <<>>
    ELSE <<C("{")>> \o [i \in DOMAIN rd |-> Entry(RdKey(rd[i]), rd[i].x)] \o <<C("}")>>
\* the domain must be a string; a number of hits must be one
AsText(d) == IF d.x.k = "PORT" THEN [k |-> "NUM", e |-> C("x")] ELSE d.x
RlMessage(a, method, rd) ==
    LET dom == FirstOf(a, "ratelimit.domain")
        hit == FirstOf(a, "ratelimit.hits_addend") IN
    Cat(<<C(method \o "|"), IF dom = <<>> THEN C(a.scope) ELSE AsText(dom[1]), C("|"),
          IF hit = <<>> THEN C("1") ELSE [k |-> "NUM", e |-> hit[1].x], C("|")>>
        \o RlDescriptor(a) \o RdDescriptor(rd))

(***************************************************************************)
(* Authorization                                                           *)
(***************************************************************************)
MdKey(r) == IF r.dom = "" THEN "io.kuadrant" ELSE "io.kuadrant." \o r.dom
AuthMessage(a, rd) ==
    Cat(<<C("auth|" \o a.scope \o "|"), At("request.host"), C("|"), At("request.method"), C("|"),
          At("request.scheme"), C("|"), At("request.path"), C("|"), At("request.protocol"), C("|"),
          [k |-> "HDRS"], C("|"), At("request.time"), C("|"),
          At("source.address"), C("#"), Port("source.port"), C("|"),
          At("destination.address"), C("#"), Port("destination.port"), C("|")>>
        \o [i \in DOMAIN rd |-> Cat(<<C(MdKey(rd[i]) \o "/" \o rd[i].field \o "="),
                                      IF rd[i].au THEN C("cel") ELSE rd[i].x, C(";")>>)])

(***************************************************************************)
(* The program                                                             *)
(***************************************************************************)
Child(kind, parent, pred, val) ==
    [kind |-> kind, pred |-> pred, val |-> val, term |-> FALSE, guard |-> TRUE, par |-> TRUE, mode |-> "none",
     fault |-> "none", reply |-> <<>>, parent |-> parent, tgt |-> "", path |-> "", export |-> FALSE]
In(id, ks) == [k |-> "VARIN", f |-> id, w |-> ks]
Tok(id)    == [k |-> "TOK", f |-> id]
ByKind(id, alts) == [k |-> "BYKIND", f |-> id, alt |-> alts]

AuthReply(id) ==
    <<  [Child("deny", id, In(id, <<"a-den", "a-den0", "a-dens", "a-dent">>),
               ByKind(id, ("a-den" :> Cat(<<C("401|x-deny=d"), Tok(id), C(",x-deny=e"), Tok(id), C("|b"), Tok(id)>>))
                       @@ ("a-den0" :> Cat(<<C("403||b"), Tok(id)>>))
                       @@ ("a-dens" :> Cat(<<C("403||b"), Tok(id)>>))
                       @@ ("a-dent" :> Cat(<<C("302|location=l"), Tok(id), C("|")>>)))) EXCEPT !.term = TRUE],
        [Child("fail", id, In(id, <<"a-okx">>), C("")) EXCEPT !.term = TRUE],
        [Child("store", id, In(id, <<"a-okm", "a-okmh", "a-okm0">>),
               ByKind(id, ("a-okm" :> Cat(<<C("u"), Tok(id)>>)) @@ ("a-okmh" :> Cat(<<C("u"), Tok(id)>>))
                       @@ ("a-okm0" :> C(NOKEY)))) EXCEPT !.path = "auth", !.export = TRUE],
        [Child("headers", id, In(id, <<"a-ok", "a-okh", "a-okm", "a-okmh", "a-okm0", "a-okx">>),
               ByKind(id, ("a-okh" :> Cat(<<C("h"), Tok(id)>>)) @@ ("a-okmh" :> Cat(<<C("h"), Tok(id)>>))))
               EXCEPT !.tgt = "req"] @@ [hn |-> "x-auth"],
        [Child("fail", id, In(id, <<"a-none">>), C("")) EXCEPT !.term = TRUE] >>
RlReply(id) ==
    <<  [Child("deny", id, In(id, <<"r-over", "r-overh">>),
               ByKind(id, ("r-over" :> C("429||Too Many Requests\n"))
                       @@ ("r-overh" :> Cat(<<C("429|x-rl=l"), Tok(id), C("|Too Many Requests\n")>>)))) EXCEPT !.term = TRUE],
        [Child("headers", id, In(id, <<"r-ok", "r-okh">>),
               ByKind(id, ("r-okh" :> Cat(<<C("l"), Tok(id)>>)))) EXCEPT !.tgt = "resp"],
        [Child("fail", id, In(id, <<"r-unk">>), C("")) EXCEPT !.term = TRUE] >>
ReportReply(id) == << Child("fail", id, FalseX, C("")) >>

ReplyOf(svc, id) == CASE svc = "auth" -> AuthReply(id)
                      [] svc \in {"rl", "check"} -> RlReply(id)
                      [] svc = "report" -> ReportReply(id)
KindsOf(svc) == CASE svc = "auth" -> <<"a-ok", "a-okh", "a-okm", "a-okmh", "a-okm0", "a-okx", "a-den", "a-den0", "a-dent", "a-none">>
                  [] OTHER -> <<"r-ok", "r-okh", "r-over", "r-overh", "r-unk">>
KidId(id, i) == id \o "." \o ToString(i - 1)
Kids(L, id) ==
    LET r == ReplyOf(L.leg[id].svc, id)
        RECURSIVE Go(_)
        Go(i) == IF i > Len(r) THEN EmptyFun ELSE (KidId(id, i) :> r[i]) @@ Go(i + 1)
    IN Go(1)

\* values only there with the response are of no use to a decision on the request
Early_(rd) == SelectSeq(rd, LAMBDA r : \A x \in Leaves(r.x) : x.k # "RSB")
Top(L, id) ==
    LET a == L.leg[id]
        rd == IF a.svc = "report" THEN L.rdata ELSE Early_(L.rdata)
        none == [C("x") EXCEPT !.f = "x"]
    IN [kind |-> "grpc", mode |-> a.mode, fault |-> a.fault, term |-> FALSE, guard |-> a.svc # "report", par |-> FALSE,
        reply |-> [i \in DOMAIN ReplyOf(a.svc, id) |-> KidId(id, i)] \o <<>>, parent |-> "", tgt |-> "", path |-> "", export |-> FALSE, leg |-> TRUE,
        pred |-> IF a.svc = "auth" THEN All(a.preds) ELSE RlPred(a),
        val |-> IF a.svc = "auth" THEN AuthMessage(a, rd) ELSE RlMessage(a, a.svc, rd),
        xu |-> L.xu, res |-> KindsOf(a.svc) \o <<"status", "garbage">>]

Load(L) ==
    IF "leg" \notin DOMAIN L THEN L
    ELSE LET RECURSIVE Go(_)
             Go(ids) == IF ids = {} THEN [id \in DOMAIN L.acts |-> L.acts[id] @@ [xu |-> L.xu]]
                        ELSE LET id == CHOOSE x \in ids : TRUE IN
                             (id :> Top(L, id)) @@ Kids(L, id) @@ Go(ids \ {id})
         IN [L EXCEPT !.acts = Go(DOMAIN L.leg)]
=============================================================================
