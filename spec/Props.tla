-------------------------------- MODULE Props --------------------------------
(* The properties, stated over Coro plus two ghosts: what each coroutine's   *)
(* resumer looked like when it last resumed, and where each coroutine        *)
(* stopped when it last suspended.                                           *)
EXTENDS Coro

VARIABLES from, at
ghosts == <<from, at>>
allvars == <<co, sk, ctl, cur, md, stash, lab, from, at>>

ResumedBy(c) == /\ md.m # "end" /\ co[c].st # "run" /\ co'[c].st = "run"
PInit == Init /\ from = [c \in Cs |-> <<0,<<>>>>] /\ at = [c \in Cs |-> <<>>]
PNext == /\ Next
         /\ from' = [c \in Cs |-> IF ResumedBy(c) THEN <<cur,C>> ELSE
                                  IF co'[c].st = "run" THEN from[c] ELSE <<0,<<>>>>]
         /\ at' = [c \in Cs |-> IF co[c].st = "run" /\ co'[c].st = "susp" THEN Seg ELSE
                                IF co'[c].st = "susp" THEN at[c] ELSE <<>>]
PView == <<core, ghosts>>

-----------------------------------------------------------------------------
Modes == {"run","in","yld","ret","swl","rc","osr","psr","pop","hk","unw","sd","fud",
          "fs","isk","ihk","trp","abt"}
Kinds == {"main","co","os","ps","clo","tclo","loc","act","hold","cat","got","cln","hcl"}
FramesOK(s) == \A i \in 1..Len(s) : s[i].k \in Kinds
TypeOK == /\ \A c \in Cs : /\ co[c].st \in {"none","fresh","susp","run","done","end"}
                           /\ co[c].sk \in 0..NS /\ FramesOK(co[c].seg)
          /\ \A s \in Ss : sk[s] \in {"free","user","co","os"}
          /\ \A t \in Ts : FramesOK(ctl[t]) /\ ctl[t][1].k = "main"
          /\ cur \in Ts /\ md.m \in Modes
ok == md.m # "abt"

BdsOf(c) == {x \in Ts \X (1..40) : x[2] <= Len(ctl[x[1]]) /\ ctl[x[1]][x[2]].k = "co"
                                   /\ ctl[x[1]][x[2]].a = c}

\* C01, C05: the context below a running coroutine's boundary is, unchanged, the one
\* that resumed it last, on the thread that did; so that is where it goes back to.
C01_Resumer ==
  ok => \A c \in Cs :
    IF co[c].st = "run"
    THEN \E x \in BdsOf(c) : /\ BdsOf(c) = {x} /\ from[c][1] = x[1]
                             /\ LET now == SubSeq(ctl[x[1]],1,x[2]-1) was == from[c][2]
                                IN /\ Len(now) = Len(was)
                                   /\ \A i \in 1..Len(now) : now[i].k = was[i].k /\ now[i].a = was[i].a
    ELSE BdsOf(c) = {}
\* C01: a suspended coroutine is left exactly as it was.
C01_Kept == ok => \A c \in Cs : co[c].st = "susp" =>
              /\ Len(co[c].seg) = Len(at[c])
              /\ \A i \in 1..Len(at[c]) : co[c].seg[i].k = at[c][i].k /\ co[c].seg[i].a = at[c][i].a
\* C01: nobody else runs: only the coroutine named by the step changes its status.
C01_Only == [][ \A c, d \in Cs : (c # d /\ co'[c] # co[c]) =>
                   (co'[d].st = co[d].st) ]_allvars

\* C03: statuses only move forward.
C03_Order ==
  [][ \A c \in Cs : <<co[c].st, co'[c].st>> \in
        { <<x,x>> : x \in {"none","fresh","susp","run","done","end"} } \cup
        { <<"none","fresh">>, <<"fresh","run">>, <<"fresh","done">>, <<"fresh","end">>,
          <<"run","susp">>, <<"susp","run">>, <<"run","done">>, <<"run","end">>,
          <<"susp","done">>, <<"done","end">>, <<"done","none">>, <<"end","none">> } ]_allvars
C03_Seg == \A c \in Cs : co[c].st # "susp" => co[c].seg = <<>>

\* C04: the objects alive, derived from the frames.
Bearing == {"clo","tclo","loc","act"}
ObjsIn(s,f(_)) == {f(i) : i \in {j \in 1..Len(s) : s[j].k \in Bearing}}
Objs == UNION {LET f(i) == Obj(t,ctl[t],i) IN ObjsIn(ctl[t],f) : t \in Ts}
        \cup UNION {LET f(i) == <<c,i>> IN ObjsIn(co[c].seg,f) : c \in Cs}
        \cup {<<c,1>> : c \in {d \in Cs : co[d].st = "fresh"}}
Ev == IF lab'[1] = "tau" THEN "tau" ELSE lab'[2]
Dropped == IF Ev = "drop" THEN {<<lab'[3],lab'[4]>>} ELSE {}
\* only discarding operations lose objects; every other loss is the one destruction reported
C04_Once ==
  [][ md'.m # "abt" =>
      LET lost == Objs \ Objs' IN
      CASE Ev \in {"Reset","Trap"} -> \A o \in lost : o[1] = lab'[3]
        [] OTHER -> lost = Dropped ]_allvars
C04_Born ==
  [][ Objs' \ Objs # {} => Ev \in {"New","Loc","Act","OnStack","OnParent","Trap"}
                           /\ Cardinality(Objs' \ Objs) = 1 ]_allvars
\* user payloads are destroyed only by a reported destruction or a reset/trap
C04_Payload ==
  [][ md'.m # "abt" => (Pays \ Pays' # {} => Ev \in {"pdrop","Reset","Trap","top"}) ]_allvars
\* nothing is left when everything has been given back
Idle == /\ ok /\ md = Run /\ \A c \in Cs : co[c].st = "none"
        /\ \A t \in Ts : ctl[t] = <<FMain>>
C04_NoLeak == Idle => Objs = {} /\ Pays \subseteq {stash.t}

\* C05/C06: forced unwinding and panics only pass boundaries outwards; a forced
\* unwind that is reported as finished has left nothing behind.
C06_Clean == [][ Ev = "fud" => co[lab'[3]].st = "done" /\ BdsOf(lab'[3]) = {}
                               /\ \A o \in Objs : o[1] # lab'[3] ]_allvars
\* C07: after a drop nothing of the coroutine is left.
C07_Clean == [][ \A c \in Cs : (co[c].st # "none" /\ co'[c].st = "none") =>
                    /\ \A o \in Objs : o[1] # c
                    /\ BdsOf(c) = {} ]_allvars

\* C14: one user at a time, released or handed back exactly once, when nothing is on it.
OnStackNow(s) == \/ \E t \in Ts : \E i \in 1..Len(ctl[t]) : StkAt(ctl[t],i) = s
                 \/ \E c \in Cs : co[c].sk = s /\ co[c].seg # <<>>
                 \/ \E c \in Cs : \E i \in 1..Len(co[c].seg) : co[c].seg[i].k = "os" /\ co[c].seg[i].a = s
Users(s) == {c \in Cs : co[c].st # "none" /\ co[c].sk = s}
OsUsers(s) == {x \in Ts \X (1..40) : x[2] <= Len(ctl[x[1]]) /\ ctl[x[1]][x[2]].k = "os" /\ ctl[x[1]][x[2]].a = s}
              \cup {x \in Cs \X (1..40) : x[2] <= Len(co[x[1]].seg) /\ co[x[1]].seg[x[2]].k = "os"
                                          /\ co[x[1]].seg[x[2]].a = s}
C14_One == ok => \A s \in Ss :
   CASE sk[s] = "co" -> Cardinality(Users(s)) = 1 /\ OsUsers(s) = {}
     [] sk[s] = "os" -> Users(s) = {} /\ (Cardinality(OsUsers(s)) = 1 \/ md.m \in {"fs","osr"})
     [] OTHER -> Users(s) = {} /\ OsUsers(s) = {}
C14_Last == [][ md'.m # "abt" => \A s \in Ss :
                 (sk[s] \in {"co","os"} /\ sk'[s] \in {"free","user"}) =>
                    /\ ~(OnStackNow(s))'
                    /\ (sk'[s] = "free" => Ev = "free" /\ ~OnStackNow(s)) ]_allvars
C14_Free == [][ Ev = "free" => sk[lab'[3]] # "free" /\ sk'[lab'[3]] = "free" ]_allvars

\* C11, C12, C24: code always runs on a stack that exists and belongs to that use.
C11_Where == ok => (CurStk # 0 => sk[CurStk] \in {"co","os"} \/ md.m \in {"fs"})

\* C20, C15: what a reset or recovery discards concerns that coroutine only.
C20_Reset == [][ Ev = "Reset" => /\ co'[lab'[3]].st = "done" /\ UNCHANGED <<ctl,sk,stash>>
                                 /\ \A c \in Cs \ {lab'[3]} : co'[c] = co[c] ]_allvars
C15_Trap == [][ Ev = "Trap" => /\ UNCHANGED <<co,sk,stash>>
                               /\ SubSeq(ctl'[cur],1,B) = SubSeq(C,1,B)
                               /\ Len(ctl'[cur]) = B + 1 ]_allvars

\* C19: a step of one thread changes no other thread's context.
C19_Threads == [][ \A t \in Ts \ {cur} : Len(ctl'[t]) = Len(ctl[t])
                     /\ \A i \in 1..Len(ctl[t]) : ctl'[t][i].k = ctl[t][i].k /\ ctl'[t][i].a = ctl[t][i].a ]_allvars

\* C25: a hook runs exactly once per raised panic; forced unwinding runs none.
C25_Hook == [][ /\ (Ev = "hook" => md.m \in {"hk","ihk"} /\ md.p.k # "fu")
                /\ ((md.m = "hk" /\ md'.m # "hk") => Ev = "hook") ]_allvars
C25_Calm == (/\ md = Run /\ \A t \in Ts : Pending(ctl[t]) = {}
             /\ \A c \in Cs : Pending(co[c].seg) = {}) => InFlight = 0

\* C08: without unwinding nothing crosses a boundary and nothing is forced.
C08_NoCross == [][ ~Unwind => \A c \in Cs : (co[c].st = "run" /\ co'[c].st = "done") => Ev \in {"drop","Reset","tau"} ]_allvars
C08_NoForce == ~Unwind => \A t \in Ts : \A i \in 1..Len(ctl[t]) : ctl[t][i].k = "co" => ctl[t][i].b = 0

\* Every operation of the crate comes to an end.
Ends == [](md.m \notin {"run","abt"} => <>(md.m \in {"run","abt"}))
PFair == PInit /\ [][PNext]_allvars /\ WF_allvars(Event /\ PNext)
=============================================================================
