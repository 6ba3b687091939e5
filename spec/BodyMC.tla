-------------------------------- MODULE BodyMC -------------------------------
(* Every way of cutting small documents: what is read piece by piece is    *)
(* what is at the pointers in the whole document.                          *)
EXTENDS Body, Json, IOUtils
ASSUME TLCSet(2, JsonDeserialize(IOEnv.PROG_FILE))
Progs == TLCGet(2)
MaxChunks == 3
VARIABLES pid, S, path, n, upto, part
vars == <<pid, S, path, n, upto, part>>
P == Progs[pid]
Toks == Tokens(P.docs[1])
Init == pid \in DOMAIN Progs /\ S = Init0(Progs[pid]) /\ path = <<>> /\ n = 0 /\ upto = 0 /\ part = "none"
Rank(x) == CASE x = "none" -> 0 [] x = "ws" -> 1 [] x = "mid" -> 2
Splits(i) == IF i < Len(Toks) /\ Toks[i + 1].t \in {"key", "str", "num", "lit"} THEN {"none", "ws", "mid"} ELSE {"none", "ws"}
Log(code, T) == PrintT(<<"E", pid, ToJson(Append(path, code))>>)
Chunk ==
    \E u \in upto..Len(Toks), x \in {"none", "ws", "mid"}, eos \in BOOLEAN :
        /\ n < MaxChunks /\ ~S.end
        /\ x \in Splits(u)
        /\ u > upto \/ Rank(x) > Rank(part) \/ (u = upto /\ x = part /\ eos)
        \* the last chunk of a budget ends the body; it ends with the document unless it is short
        /\ eos => (u = Len(Toks) \/ Len(Toks) <= 5)
        /\ (n = MaxChunks - 1) => eos
        \* a body that ends in, or just after, a number could go on
        /\ eos /\ u < Len(Toks) => ~(x = "mid" /\ Toks[u + 1].t = "num") /\ ~(x = "none" /\ u > 0 /\ Toks[u].t = "num")
        /\ LET e == [ev |-> "chunk", upto |-> u, part |-> x, eos |-> eos]
               code == <<ToString(u), x, IF eos THEN "+" ELSE "-">>
           IN /\ S' = Step(P, S, e) /\ path' = Append(path, code) /\ n' = n + 1 /\ upto' = u /\ part' = x /\ Log(code, S')
              /\ UNCHANGED pid
Answer ==
    \E w \in {"hold", "use"} :
        /\ Possible(S, [ev |-> w])
        /\ w = "hold" \/ S.hold # "out"
        /\ S' = Step(P, S, [ev |-> w]) /\ path' = Append(path, <<w>>) /\ Log(<<w>>, S')
        /\ UNCHANGED <<pid, n, upto, part>>
Next == Chunk \/ Answer
Spec == Init /\ [][Next]_vars

\* what the whole document says
Doc == P.docs[1]
Whole(i) == [p \in DOMAIN P.stores[i].ptrs |-> Lookup(Doc, P.stores[i].ptrs[p])]
Fits(i) == \A p \in DOMAIN P.stores[i].ptrs : Whole(i)[p].k \notin {"none", "bad"} /\ (P.stores[i].text => Text(Whole(i)[p]))
ReadRight ==
    \A i \in DOMAIN P.stores :
        \* nothing is stored that the document does not hold
        /\ S.st[i] = "done" => Fits(i)
        \* what a sound document that arrived holds is stored
        /\ S.st[i] = "failed" /\ Sound(Doc) /\ upto = Len(Toks) => ~Fits(i)
        /\ S.end => S.st[i] # "wait"
StoredRight ==
    \A k \in DOMAIN S.o.seq :
        S.o.seq[k][1] = "P" =>
        \E i \in DOMAIN P.stores :
            /\ S.o.seq[k][2] = ToString(i)
            /\ S.o.seq[k][3] = [p \in DOMAIN P.stores[i].ptrs |-> Shown(Whole(i)[p], P.stores[i].text)]
\* a call that needs values is sent with them, and only when the body has ended
UsedRight ==
    /\ S.use \in {"out"} => S.end
    /\ S.end /\ S.use = "wait" => FALSE
=============================================================================
