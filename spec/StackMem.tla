------------------------------ MODULE StackMem ------------------------------
(***************************************************************************)
(* Default stacks as regions of the address space.                         *)
(*                                                                         *)
(* A stack of a requested size is a fresh region [lo,hi) of pages: at the  *)
(* top at least as many usable bytes as were asked for (and the minimum),  *)
(* and below them at least one inaccessible guard page.  Creation can fail *)
(* (or be refused) only if the size cannot be had or the system refuses a  *)
(* call, and then leaves nothing behind; using the stack, in a coroutine   *)
(* or by on_stack, changes nothing; dropping it returns exactly what was   *)
(* mapped for it.  Under Valgrind a region is registered from creation     *)
(* until just before it is unmapped.                                       *)
(*                                                                         *)
(* Modes "gen" and "wide": histories of operations are generated from it   *)
(* (TLC -simulate; every trace is a history).  Mode "check": what was      *)
(* observed while the real code ran such histories must be a behaviour of  *)
(* the machine.  Mode "check" with Vg = 1: the same, in Valgrind's view.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, Ids, Vg, Bits

PageSize == 4096
MinStack == 4096
DefaultPages == 256     \* "a sensible default": 1 MiB

(* requested sizes, in pages and bytes; "huge" and "half": the largest     *)
(* number (the largest signed one) minus pg pages and rem bytes: cannot    *)
(* exist; "big": the system may or may not provide it; "dflt": none given, *)
(* for a default stack (0) or for a coroutine that makes its own (1)       *)
Small == {[k |-> "n", pg |-> p, rem |-> r] :
            p \in {0,1,2,3,4,7,16,255,256}, r \in {0,1,2,15,16,17,2048,4080,4095}}
         \cup {[k |-> "n", pg |-> 4096, rem |-> r] : r \in {0,1,4095}}
         \cup {[k |-> "dflt", pg |-> p, rem |-> 0] : p \in {0,1}}
Odd == {[k |-> "big", pg |-> p, rem |-> 0] : p \in {1,2,3,4}}
       \cup {[k |-> "huge", pg |-> p, rem |-> r] : p \in {0,1,2,3}, r \in {0,1,2,4095}}
       \cup {[k |-> "half", pg |-> p, rem |-> r] : p \in {0,1,2}, r \in {0,1}}
Sizes == Small \cup Odd
Faults == {"none","mmap","mprotect"}
BigPages(p) == CASE p = 1 -> 262144 [] p = 2 -> 524272
                    [] p = 4 -> (IF Bits = 64 THEN 1572864 ELSE 196608) [] OTHER -> IF Bits = 64 THEN 268435456 ELSE 786432

Max(a,b) == IF a > b THEN a ELSE b
NeedPages(z) == CASE z.k = "n"    -> Max(((z.pg * PageSize + z.rem) + PageSize - 1) \div PageSize, MinStack \div PageSize)
                  [] z.k = "dflt" -> DefaultPages
                  [] z.k = "big"  -> BigPages(z.pg)
                  [] z.k = "half" -> IF Bits = 32 THEN 524288 - z.pg ELSE 0
                  [] OTHER -> 0

VARIABLES live,     \* id -> the region, or None
          op,       \* generation: the operation done last
          i, bad    \* judging: position in the trace, and whether it was left
vars == <<live, op, i, bad>>
None == [lo |-> 0, hi |-> 0, maps |-> <<>>, vg |-> 0]
NoOp == <<"", 0, "n", 0, 0, "none">>
Init == live = [x \in Ids |-> None] /\ i = 0 /\ bad = FALSE /\ op = NoOp

-----------------------------------------------------------------------------
(* Generation. *)
GenNew(x,z,f) == /\ live[x] = None
                 /\ op' = <<"new", x, z.k, z.pg, z.rem, f>>
                 /\ live' = IF f = "none" /\ z \in Small THEN [live EXCEPT ![x].hi = NeedPages(z)] ELSE live
GenOn(x,o) == /\ live[x] # None /\ op' = <<o, x, "n", 0, 0, "none">>
              /\ live' = IF o \in {"drop","spend"} THEN [live EXCEPT ![x] = None] ELSE live
Gen == /\ Mode = "gen" /\ UNCHANGED <<i, bad>>
       /\ \/ \E x \in Ids, z \in Small : GenNew(x,z,"none")
          \/ \E x \in Ids, z \in Odd \cup {[k |-> "n", pg |-> 2, rem |-> 1]} \cup {[k |-> "dflt", pg |-> p, rem |-> 0] : p \in {0,1}}, f \in Faults : GenNew(x,z,f)
          \* weights: drops as likely as creations, uses less so
          \/ \E x \in Ids, w \in 1..40, o \in {"drop","spend"} : GenOn(x,o)
          \/ \E x \in Ids, w \in 1..15, o \in {"use","os"} : GenOn(x,o)
(* Hundreds of stacks: mostly made until there are as many as there can be, *)
(* now and then one of them is used or given back.                          *)
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Most(X) == CHOOSE x \in X : \A y \in X : y <= x
Some == {x \in Ids : live[x] # None}
Wide == /\ Mode = "wide" /\ UNCHANGED <<i, bad>>
        /\ \/ /\ Some # Ids
              /\ \E p \in 0..3, r \in {0,1,17,4095} : GenNew(Least(Ids \ Some), [k |-> "n", pg |-> p, rem |-> r], "none")
           \/ /\ Some # Ids
              /\ \E f \in {"mmap","mprotect"} : GenNew(Least(Ids \ Some), [k |-> "n", pg |-> 2, rem |-> 1], f)
           \/ /\ Some # {}
              /\ \E x \in {Least(Some), Most(Some)}, o \in {"drop","use","spend"} : GenOn(x,o)

-----------------------------------------------------------------------------
(* Judging. *)
Rec == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>

Live == {x \in Ids : live[x] # None}
Disjoint(lo,hi) == \A y \in Live : hi <= live[y].lo \/ live[y].hi <= lo

(* o.runs: the protections from limit to base, in order, <<pages, kind>> *)
RECURSIVE Pages(_)
Pages(rs) == IF rs = <<>> THEN 0 ELSE rs[1][1] + Pages(Tail(rs))
Last(rs) == rs[Len(rs)]
Layout(o,need) ==
    /\ o.lorem % 16 = 0 /\ o.hirem % 16 = 0
    /\ Pages(o.runs) = o.hi - o.lo
    /\ Len(o.runs) = 2
    /\ o.runs[1][2] = "none"                                    \* guard, from the limit
    /\ Last(o.runs)[2] = "rw" /\ Last(o.runs)[1] >= need        \* usable, directly below the base
    /\ o.low = 1 /\ o.top = 1 /\ o.guard = 0                    \* both ends written to; not even readable
    /\ o.copy = 1                                               \* a forked process has a copy

Within(o,s) == \E j \in 1..Len(s) : s[j][1] <= o.lo /\ o.hi <= s[j][2]

(* Valgrind: the events of one operation, <<kind, lo, hi, id>> *)
Regs(o) == SelectSeq(o.vg, LAMBDA e : e[1] = "reg")
Deregs(o) == SelectSeq(o.vg, LAMBDA e : e[1] = "dereg")
Before(o,a,b) == \A j, l \in 1..Len(o.vg) : (o.vg[j][1] = a /\ o.vg[l][1] = b) => j < l

Size(o) == [k |-> o.kind, pg |-> o.pg, rem |-> o.rem]
NewOk(o) ==
    /\ o.out = "ok" /\ live[o.id] = None
    /\ o.kind \in {"n","big","dflt"} \/ (o.kind = "half" /\ Bits = 32)
    /\ o.hit = 0                                 \* a refused call is not ignored
    /\ Disjoint(o.lo,o.hi)
    /\ IF Vg = 1 THEN /\ Len(Regs(o)) = 1 /\ Len(Deregs(o)) = 0
                      /\ Regs(o)[1][2] = o.lo /\ Regs(o)[1][3] = o.hi
                      /\ \A y \in Live : live[y].vg # Regs(o)[1][4]
                      /\ Before(o,"mmap","reg")
       ELSE Layout(o,NeedPages(Size(o))) /\ Within(o,o.added) /\ o.removed = <<>>
NewFails(o) ==
    /\ o.out \in {"err","panic"} /\ live[o.id] = None
    /\ o.kind \notin {"n","dflt"} \/ o.hit = 1                  \* there was a reason
    /\ o.out = "panic" => o.kind # "n"                          \* a refused call is reported
    /\ IF Vg = 1 THEN /\ Len(Regs(o)) = Len(Deregs(o))
                      /\ \A j \in 1..Len(Regs(o)) : Deregs(o)[j][4] = Regs(o)[j][4]
                      /\ Before(o,"dereg","munmap")
       ELSE o.added = <<>> /\ o.removed = <<>>
DropOk(o) ==
    /\ o.out = "ok" /\ live[o.id] # None
    /\ IF Vg = 1 THEN /\ Len(Regs(o)) = 0 /\ Len(Deregs(o)) = 1 /\ Deregs(o)[1][4] = live[o.id].vg
                      /\ Before(o,"dereg","munmap")
       ELSE o.added = <<>> /\ o.removed = live[o.id].maps
UseOk(o) ==
    /\ o.out = "ok" /\ live[o.id] # None
    /\ o.added = <<>> /\ o.removed = <<>> /\ Regs(o) = <<>> /\ Deregs(o) = <<>>
    /\ o.lo = live[o.id].lo /\ o.hi = live[o.id].hi

Always(o) == /\ o.pat = 1          \* what was written to the other stacks is still there
             /\ o.stable = 1       \* base and limit are what they were, wherever the stack is moved
             /\ o.changed = 0      \* no other mapping changed
Good(o) == /\ Always(o)
           /\ CASE o.op = "new" -> NewOk(o) \/ NewFails(o)
                [] o.op \in {"drop","spend"} -> DropOk(o)
                [] o.op \in {"use","os"} -> UseOk(o)
                [] OTHER -> FALSE
After(o) == CASE o.op = "new" /\ o.out = "ok" ->
                   [live EXCEPT ![o.id] = [lo |-> o.lo, hi |-> o.hi, maps |-> o.added,
                                           vg |-> IF Vg = 1 THEN Regs(o)[1][4] ELSE 0]]
              [] o.op \in {"drop","spend"} -> [live EXCEPT ![o.id] = None]
              [] OTHER -> live
Judge == /\ Mode = "check" /\ i < Len(Rec) /\ ~bad /\ i' = i + 1 /\ UNCHANGED op
         /\ LET o == Rec[i+1]  g == Good(o) IN
            /\ bad' = ~g
            /\ live' = IF g THEN After(o) ELSE live

Next == Gen \/ Wide \/ Judge
Permitted == ~bad
(* The machine itself: stacks lie apart (while judging, where they lie is known). *)
Apart == Mode = "check" => \A x, y \in Live : x # y => live[x].hi <= live[y].lo \/ live[y].hi <= live[x].lo
=============================================================================
