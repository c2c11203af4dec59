-------------------------------- MODULE Graph --------------------------------
(* The complete labelled state graph of a bounded instance of Coro, printed  *)
(* transition by transition, each with what can be observed in its source,   *)
(* while the properties are checked on it.                                   *)
EXTENDS Props, TLCExt

Id(v) == <<TLCFP(v), TLCFP(<<v,"x">>)>>
Fl(c) == CASE co[c].st = "none" -> "-" [] co[c].st = "fresh" -> "F"
           [] co[c].st = "susp" -> "S" [] co[c].st = "done" -> "D" [] OTHER -> "B"
Obs == <<cur, CurStk, [c \in Cs |-> Fl(c)], [s \in Ss |-> sk[s]],
         [i \in 1..Len(C) |-> <<C[i].k, C[i].a, C[i].b>>], InFlight>>
Out == PrintT(ToString(<<Id(core), lab', Id(core'), md.m, md.s, Obs>>))
\* nothing follows an abort
Alive == md.m # "abt"
=============================================================================
