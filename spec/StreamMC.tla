------------------------------- MODULE StreamMC -------------------------------
(* Every stream of up to MaxLen symbols in every way of cutting it.        *)
EXTENDS Stream, IOUtils
MaxLen == atoi(IOEnv.MAX_LEN)
Sym == {"D", "B", "O", "N", "C", "L"}
VARIABLES s, pos, M, end
vars == <<s, pos, M, end>>
Init == s \in UNION { [1..n -> Sym] : n \in 0..MaxLen } /\ pos = 0 /\ M = M0 /\ end = FALSE
Next == /\ ~end
        /\ \E to \in pos..Len(s), eos \in BOOLEAN :
              /\ eos => to = Len(s)
              /\ to > pos \/ eos
              /\ M' = Chunk(M, s, pos, to, eos) /\ pos' = to /\ end' = eos /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
CutsDoNotMatter == end => Carried(M.a) = Whole(s)
\* a stream that goes on after its last event carries what it carried
Prefix == end /\ Len(s) > 0 /\ s[Len(s)] \notin {"C", "L"} => Whole(s) = Whole(SubSeq(s, 1, Len(s) - 1)) \/ s[Len(s)] # "N"
=============================================================================
