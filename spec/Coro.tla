-------------------------------- MODULE Coro --------------------------------
(***************************************************************************)
(* The abstract machine of corosensei.                                     *)
(*                                                                         *)
(* A thread runs a control stack of frames.  Frames are what the user's    *)
(* program has live (locals with destructors, catch scopes, destructors in *)
(* progress, caught payloads) and the boundaries that the crate puts       *)
(* between contexts (a coroutine, an on_stack section, an on_parent_stack  *)
(* section).  A suspended coroutine keeps the frames above its boundary as *)
(* its segment.                                                            *)
(*                                                                         *)
(* What the user's program does next is a nondeterministic DECISION, taken *)
(* only in mode "run".  Everything the crate (and the language's           *)
(* unwinding) does in response is a sequence of deterministic EVENTS.      *)
(* `lab' records the decision or event of the last step; it is hidden by   *)
(* the VIEW of the models and is what binds the specification to the code. *)
(*                                                                         *)
(* Objects need no names of their own: the object in the frame at depth d  *)
(* of coroutine c is <<c,d>>, that of thread t is <<9000+t,d>>.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NC,      \* coroutines
          NS,      \* stacks
          NT,      \* threads
          NP,      \* user panic payloads alive at once
          MaxD,    \* depth of a control stack
          MaxSeg,  \* frames of one context above its boundary
          Ops,     \* decisions explored
          Unwind,  \* the crate's "unwind" feature
          Own      \* how a stack may be given away: subset of {0,1}; 1 = by value

VARIABLES co, sk, ctl, cur, md, stash, lab

vars == <<co, sk, ctl, cur, md, stash, lab>>
core == <<co, sk, ctl, cur, md, stash>>

Cs == 1..NC
Ss == 1..NS
Ts == 1..NT

-----------------------------------------------------------------------------
(* Payloads of panics.  z marks the payload of a forced unwind that is over. *)
NoP      == [k |-> "none", t |-> 0, z |-> 0]
User(t)  == [k |-> "user", t |-> t, z |-> 0]    \* thrown by the program
FU(c)    == [k |-> "fu",   t |-> c, z |-> 0]    \* forced unwind of c
Msg      == [k |-> "msg",  t |-> 0, z |-> 0]    \* refusal by the crate
Boom     == [k |-> "boom", t |-> 0, z |-> 0]    \* thrown by a destructor

Fr(k,a,b,p) == [k |-> k, a |-> a, b |-> b, p |-> p]
FMain   == Fr("main",0,0,NoP)
FCo(c,how) == Fr("co",c,how,NoP)     \* how: 0 resume, 1 force_unwind, 2 drop
FOs(s,own) == Fr("os",s,own,NoP)
FPs     == Fr("ps",0,0,NoP)
FClo(pan) == Fr("clo",0,pan,NoP)     \* captures of the function of a boundary
FTr     == Fr("tclo",0,0,NoP)        \* captures of a recovery closure
FLoc(pan) == Fr("loc",0,pan,NoP)
FAct    == Fr("act",0,0,NoP)         \* local whose destructor takes decisions
FHold(c) == Fr("hold",c,0,NoP)       \* local that owns coroutine c
FCat    == Fr("cat",0,0,NoP)
FGot(p) == Fr("got",0,0,p)
FCln(p) == Fr("cln",0,0,p)           \* destructor of an FAct; p: panic pending
FHcl(c,b,p) == Fr("hcl",c,b,p)       \* drop of a coroutine by an FHold (b = 0) or
                                     \* by the panic of into_stack (b = 1)

NoCo == [st |-> "none", sk |-> 0, own |-> 0, seg |-> <<>>, kp |-> 0]

Mode(m,c,s,p,v,x) == [m |-> m, c |-> c, s |-> s, p |-> p, v |-> v, x |-> x]
Run     == Mode("run",0,0,NoP,0,"")
M1(m,c) == Mode(m,c,0,NoP,0,"")
Hk(p,v) == Mode("hk",0,0,p,v,"")
Unw(p,v) == Mode("unw",0,0,p,v,"")
FreeS(s,x,p) == Mode("fs",0,s,p,0,x)
Abt     == Mode("abt",0,0,NoP,0,"")

-----------------------------------------------------------------------------
C     == ctl[cur]
Top   == C[Len(C)]
Below == C[Len(C)-1]
Pop(s)  == SubSeq(s,1,Len(s)-1)
SetC(s) == ctl' = [ctl EXCEPT ![cur] = s]
Push(f) == SetC(Append(C,f))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* the last index up to i whose frame has a kind in K; 1 = none *)
LastK(s,i,K) == i - (CHOOSE d \in 0..(i-1) : d = i-1 \/ s[i-d].k \in K)

(* index of the innermost coroutine boundary at or below index i; 1 = none *)
BAt(s,i) == LastK(s,i,{"co"})
B == BAt(C,Len(C))
InCo == C[B].k = "co"
Cur == C[B].a                                \* the innermost coroutine
Seg == SubSeq(C,B+1,Len(C))                  \* its frames
Obj(t,s,i) == LET j == BAt(s,i-1) IN
              IF s[j].k = "co" THEN <<s[j].a, i-j>> ELSE <<9000+t, i-j>>
TopObj == Obj(cur,C,Len(C))

(* The innermost boundary of any kind: what code directly runs under. *)
BdAt(s,i) == LastK(s,i,{"co","os","ps"})

(* The stack that the frame at index i of control stack s runs on (0: the   *)
(* thread's own).                                                           *)
RECURSIVE StkAt(_,_)
StkAt(s,i) == LET j == BdAt(s,i) IN
              CASE s[j].k = "co" -> co[s[j].a].sk
                [] s[j].k = "os" -> s[j].a
                [] s[j].k = "ps" -> StkAt(s, BAt(s,j)-1)
                [] OTHER -> 0
CurStk == StkAt(C,Len(C))

HasK(s,K) == \E i \in 1..Len(s) : s[i].k \in K
CtlHas(t,k,a) == \E i \in 1..Len(ctl[t]) : ctl[t][i].k = k /\ ctl[t][i].a = a
SegHas(d,k,a) == \E i \in 1..Len(co[d].seg) : co[d].seg[i].k = k /\ co[d].seg[i].a = a
Held(c)  == \/ \E t \in Ts : CtlHas(t,"hold",c)
            \/ \E d \in Cs : SegHas(d,"hold",c)

Pending(s) == {i \in 1..Len(s) : s[i].k \in {"cln","hcl"} /\ s[i].p.k # "none"}
(* Panics in flight on the current thread (program is in mode "run"). *)
SumPend == Cardinality(UNION {{c} \X Pending(co[c].seg) : c \in {c \in Cs : co[c].seg # <<>>}})
InFlight == Cardinality(Pending(C)) + (IF NT = 1 THEN SumPend ELSE 0)

(* user payloads alive *)
PaysOf(s) == {s[i].p.t : i \in {i \in 1..Len(s) : s[i].p.k = "user"}}
Pays == UNION {PaysOf(ctl[t]) : t \in Ts} \cup UNION {PaysOf(co[c].seg) : c \in Cs}
        \cup (IF stash.k = "user" THEN {stash.t} ELSE {})
        \cup (IF md.p.k = "user" THEN {md.p.t} ELSE {})
FreePays == (1..NP) \ Pays
NextPay == CHOOSE x \in FreePays : \A y \in FreePays : x <= y

(* All payloads of the forced unwind of c become stale. *)
StaleP(p,c) == IF p.k = "fu" /\ p.t = c THEN [p EXCEPT !.z = 1] ELSE p
StaleS(s,c) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.p = StaleP(@,c)]]
StaleCo(f,c) == [d \in Cs |-> [f[d] EXCEPT !.seg = StaleS(@,c)]]
StaleCtl(g,c) == [t \in Ts |-> StaleS(g[t],c)]
Forcing == \E i \in 1..Len(C) : C[i].k = "co" /\ C[i].b # 0
(* A stale payload may only be thrown where no forced unwind could take it *)
(* for its own.                                                            *)
Throwable(p) == ~(p.z # 0 /\ Forcing)

-----------------------------------------------------------------------------
Init == /\ co = [c \in Cs |-> NoCo]
        /\ sk = [s \in Ss |-> "free"]
        /\ ctl = [t \in Ts |-> <<FMain>>]
        /\ cur = 1
        /\ md = Run
        /\ stash = NoP
        /\ lab = <<"I">>

D(op,a,b) == lab' = <<"D",op,a,b>>
E(ev,a,b) == lab' = <<"E",ev,a,b>>

May(op) == op \in Ops /\ md.m = "run"
Room(n) == Len(C) + n <= MaxD /\ Len(Seg) + n <= MaxSeg
(* The program can use the handle of c here. *)
Usable(c) == co[c].st \in {"fresh","susp","done"} /\ (Held(c) => CtlHas(cur,"hold",c))
Plain == ~HasK(Seg,{"ps","tclo"})            \* the yielder is reachable

-----------------------------------------------------------------------------
(* Stacks and coroutines come and go.                                      *)

(* Stacks of the same status are interchangeable. *)
First(s) == \A r \in 1..(s-1) : sk[r] # sk[s]

MkStack(s) == /\ May("MkStack") /\ sk[s] = "free" /\ First(s)
              /\ sk' = [sk EXCEPT ![s] = "user"] /\ D("MkStack",s,0)
              /\ UNCHANGED <<co,ctl,cur,md,stash>>

RmStack(s) == /\ May("RmStack") /\ sk[s] = "user" /\ First(s)
              /\ md' = FreeS(s,"run",NoP) /\ D("RmStack",s,0)
              /\ UNCHANGED <<co,sk,ctl,cur,stash>>

New(c,s,own,pan) ==
    /\ May("New") /\ co[c].st = "none" /\ \A d \in 1..(c-1) : co[d].st # "none"
    /\ sk[s] = "user" /\ First(s)
    /\ (pan = 1 => "Pan" \in Ops)
    /\ co' = [co EXCEPT ![c] = [st |-> "fresh", sk |-> s, own |-> own, seg |-> <<>>, kp |-> pan]]
    /\ sk' = [sk EXCEPT ![s] = "co"]
    /\ lab' = <<"D","New",c,s,own,pan>>
    /\ UNCHANGED <<ctl,cur,md,stash>>

-----------------------------------------------------------------------------
(* Control transfer.                                                       *)

Enter(c,how) == Append(C,FCo(c,how)) \o
                (IF co[c].st = "fresh" THEN <<FClo(co[c].kp)>> ELSE co[c].seg)
Started(c) == [co EXCEPT ![c].st = "run", ![c].seg = <<>>, ![c].kp = 0]

Resume(c) ==
    /\ May("Resume") /\ Usable(c) /\ D("Resume",c,0)
    /\ IF co[c].st = "done"
       THEN md' = Hk(Msg,1) /\ UNCHANGED <<co,ctl>>
       ELSE /\ Len(C) + 2 + Len(co[c].seg) <= MaxD
            /\ co' = Started(c) /\ SetC(Enter(c,0)) /\ md' = M1("in",c)
    /\ UNCHANGED <<sk,cur,stash>>

(* The value of resume arrives in the coroutine. *)
In == /\ md.m = "in" /\ md' = Run /\ E("in",md.c,0)
      /\ UNCHANGED <<co,sk,ctl,cur,stash>>

(* Control leaves c with new coroutine table f and control stack s; if it  *)
(* was being unwound by force then that attempt is over.                    *)
LeaveCo(c,how,f,s) ==
    LET g == [ctl EXCEPT ![cur] = s] IN
    IF how = 0 THEN co' = f /\ ctl' = g /\ UNCHANGED stash
    ELSE co' = StaleCo(f,c) /\ ctl' = StaleCtl(g,c) /\ stash' = StaleP(stash,c)

Suspend ==
    /\ May("Suspend") /\ InCo /\ Plain
    /\ (NT > 1 \/ "NoPend" \in Ops => Pending(Seg) = {})
    /\ D("Suspend",Cur,0)
    /\ LET c == Cur how == C[B].b IN
       /\ LeaveCo(c, how, [co EXCEPT ![c].st = "susp", ![c].seg = Seg], SubSeq(C,1,B-1))
       /\ md' = CASE how = 0 -> M1("yld",c)
                  [] how = 1 -> Mode("swl",c,0,NoP,1,"")
                  [] how = 2 -> Mode("swl",c,0,NoP,1,"abt")
    /\ UNCHANGED <<sk,cur>>

(* The value of suspend or of the function arrives at the resumer. *)
Yld == /\ md.m = "yld" /\ md' = Run /\ E("yld",md.c,0)
       /\ UNCHANGED <<co,sk,ctl,cur,stash>>
Ret == /\ md.m = "ret" /\ md' = Run /\ E("ret",md.c,0)
       /\ UNCHANGED <<co,sk,ctl,cur,stash>>

(* force_unwind received a value: it destroys it and then panics. *)
Swl == /\ md.m = "swl" /\ E("vdrop",0,0)
       /\ md' = IF md.x = "abt" THEN Abt ELSE Hk(Msg,0)
       /\ UNCHANGED <<co,sk,ctl,cur,stash>>

(* The function of the innermost boundary returns: first its captures go.  *)
Return ==
    /\ May("Return") /\ Top.k \in {"clo","tclo"} /\ Below.k = "co"
    /\ D("Return",Cur,0) /\ md' = Mode("rc",0,0,NoP,1,"")
    /\ UNCHANGED <<co,sk,ctl,cur,stash>>
EndOs == /\ May("OnStack") /\ Top.k = "clo" /\ Below.k = "os"
         /\ D("EndOs",0,0) /\ md' = Mode("rc",0,0,NoP,1,"")
         /\ UNCHANGED <<co,sk,ctl,cur,stash>>
EndPs == /\ May("OnParent") /\ Top.k = "clo" /\ Below.k = "ps"
         /\ D("EndPs",0,0) /\ md' = Mode("rc",0,0,NoP,1,"")
         /\ UNCHANGED <<co,sk,ctl,cur,stash>>

Captures ==
    /\ md.m = "rc" /\ E("drop",TopObj[1],TopObj[2])
    /\ IF Top.b = 1
       THEN SetC(Pop(C)) /\ md' = Hk(Boom,1) /\ UNCHANGED <<co,sk,stash>>
       ELSE CASE Below.k = "co" ->
                  LET c == Below.a how == Below.b IN
                  /\ LeaveCo(c, how, [co EXCEPT ![c].st = "done"], SubSeq(C,1,Len(C)-2))
                  /\ md' = CASE how = 0 -> M1("ret",c)
                             [] how = 1 -> Mode("swl",c,0,NoP,1,"")
                             [] how = 2 -> Mode("swl",c,0,NoP,1,"abt")
                  /\ UNCHANGED sk
             [] Below.k = "os" ->
                  /\ SetC(SubSeq(C,1,Len(C)-2))
                  /\ IF Below.b = 1
                     THEN md' = FreeS(Below.a,"osr",NoP) /\ UNCHANGED sk
                     ELSE md' = M1("osr",0) /\ sk' = [sk EXCEPT ![Below.a] = "user"]
                  /\ UNCHANGED <<co,stash>>
             [] Below.k = "ps" ->
                  /\ SetC(SubSeq(C,1,Len(C)-2)) /\ md' = M1("psr",0)
                  /\ UNCHANGED <<co,sk,stash>>
    /\ UNCHANGED cur

OnStack(s,own) ==
    /\ May("OnStack") /\ sk[s] = "user" /\ First(s) /\ Room(2)
    /\ sk' = [sk EXCEPT ![s] = "os"]
    /\ SetC(C \o <<FOs(s,own), FClo(0)>>)
    /\ D("OnStack",s,own) /\ UNCHANGED <<co,cur,md,stash>>
OsR == /\ md.m = "osr" /\ md' = Run /\ E("osr",0,0) /\ UNCHANGED <<co,sk,ctl,cur,stash>>

OnParent ==
    /\ May("OnParent") /\ InCo /\ Plain /\ Room(2)
    /\ SetC(C \o <<FPs, FClo(0)>>) /\ D("OnParent",Cur,0)
    /\ UNCHANGED <<co,sk,cur,md,stash>>
PsR == /\ md.m = "psr" /\ md' = Run /\ E("psr",0,0) /\ UNCHANGED <<co,sk,ctl,cur,stash>>

-----------------------------------------------------------------------------
(* The program's own frames.                                               *)

PushLoc(pan) == /\ May("Loc") /\ Room(1) /\ (pan = 1 => "Pan" \in Ops)
                /\ Push(FLoc(pan)) /\ D("Loc",pan,0)
                /\ UNCHANGED <<co,sk,cur,md,stash>>
PushAct == /\ May("Act") /\ Room(1) /\ Push(FAct) /\ D("Act",0,0)
           /\ UNCHANGED <<co,sk,cur,md,stash>>
PushCat == /\ May("Catch") /\ Room(1) /\ Push(FCat) /\ D("Catch",0,0)
           /\ UNCHANGED <<co,sk,cur,md,stash>>
PushHold(c) == /\ May("Hold") /\ Room(1) /\ ~Held(c)
               /\ co[c].st \in {"fresh","susp","done"}
               /\ ("Chain" \in Ops \/ ~HasK(co[c].seg,{"hold"}))
               /\ Push(FHold(c)) /\ D("Hold",c,0)
               /\ UNCHANGED <<co,sk,cur,md,stash>>

(* Leaving the innermost of the program's own frames. *)
End == /\ md.m = "run" /\ Top.k \in {"loc","act","cat","hold","cln","got"}
       /\ D("End",0,0)
       /\ CASE Top.k = "cat" -> SetC(Pop(C)) /\ UNCHANGED <<co,md>>
            [] Top.k \in {"loc","act"} -> md' = M1("pop",0) /\ UNCHANGED <<co,ctl>>
            [] Top.k = "got" ->
                 IF Top.p.k = "user" THEN md' = M1("pop",0) /\ UNCHANGED <<co,ctl>>
                                     ELSE SetC(Pop(C)) /\ UNCHANGED <<co,md>>
            [] Top.k = "cln" ->
                 /\ SetC(Pop(C)) /\ UNCHANGED co
                 /\ md' = IF Top.p.k = "none" THEN Run ELSE Unw(Top.p,0)
            [] Top.k = "hold" ->
                 /\ SetC(Append(Pop(C),FHcl(Top.a,0,NoP)))
                 /\ md' = Mode("sd",Top.a,2,NoP,0,"") /\ UNCHANGED co
       /\ UNCHANGED <<sk,cur,stash>>

PopStep ==
    /\ md.m = "pop"
    /\ CASE Top.k = "loc" -> /\ SetC(Pop(C)) /\ E("drop",TopObj[1],TopObj[2])
                             /\ md' = IF Top.b = 1 THEN Hk(Boom,0) ELSE Run
         [] Top.k = "act" -> /\ SetC(Append(Pop(C),FCln(NoP)))
                             /\ E("drop",TopObj[1],TopObj[2]) /\ md' = Run
         [] Top.k = "got" -> /\ SetC(Pop(C)) /\ E("pdrop",Top.p.t,0) /\ md' = Run
    /\ UNCHANGED <<co,sk,cur,stash>>

-----------------------------------------------------------------------------
(* Panics.                                                                 *)

Panic == /\ May("Panic") /\ FreePays # {}
         /\ md' = Hk(User(NextPay),0) /\ D("Panic",NextPay,0)
         /\ UNCHANGED <<co,sk,ctl,cur,stash>>
Hook == /\ md.m = "hk" /\ md' = Unw(md.p,md.v) /\ lab' = <<"E","hook",md.p.k,md.p.t>>
        /\ UNCHANGED <<co,sk,ctl,cur,stash>>
Rethrow == /\ May("Rethrow") /\ Top.k = "got" /\ Throwable(Top.p)
           /\ SetC(Pop(C)) /\ md' = Unw(Top.p,0) /\ D("Rethrow",0,0)
           /\ UNCHANGED <<co,sk,cur,stash>>
Stash == /\ May("Stash") /\ Top.k = "got" /\ stash.k = "none"
         /\ SetC(Pop(C)) /\ stash' = Top.p /\ D("Stash",0,0)
         /\ UNCHANGED <<co,sk,cur,md>>
Throw == /\ May("Stash") /\ stash.k # "none" /\ Throwable(stash)
         /\ stash' = NoP /\ md' = Unw(stash,0) /\ D("Throw",0,0)
         /\ UNCHANGED <<co,sk,ctl,cur>>

(* c is to be unwound (how = 1: force_unwind, 2: drop). *)
Finish(c,how) ==      \* nothing of c is left on its stack
    IF how = 1 THEN /\ md' = M1("fud",c) /\ co' = [co EXCEPT ![c].st = "done"]
               ELSE /\ md' = Mode("fs",c,co[c].sk,NoP,0,"drp")
                    /\ co' = [co EXCEPT ![c].st = "end"]

StartDrop ==
    /\ md.m = "sd"
    /\ LET c == md.c how == md.s IN
       CASE co[c].st = "done" ->
              Finish(c,how) /\ lab' = <<"tau">> /\ UNCHANGED ctl
         [] co[c].st = "fresh" ->
              /\ E("drop",c,1) /\ UNCHANGED ctl
              /\ IF co[c].kp = 1
                 THEN IF how = 1 THEN /\ co' = [co EXCEPT ![c].st = "done"]
                                      /\ md' = Hk(Boom,0)
                                 ELSE UNCHANGED co /\ md' = Abt
                 ELSE Finish(c,how)
         [] co[c].st = "susp" ->
              /\ lab' = <<"tau">>
              /\ IF Unwind
                 THEN co' = Started(c) /\ SetC(Enter(c,how)) /\ md' = Unw(FU(c),0)
                 ELSE /\ UNCHANGED <<co,ctl>>
                      /\ md' = IF how = 1 THEN Hk(Msg,0) ELSE Abt
    /\ UNCHANGED <<sk,cur,stash>>

Fud == /\ md.m = "fud" /\ md' = Run /\ E("fud",md.c,0) /\ UNCHANGED <<co,sk,ctl,cur,stash>>

(* A stack is released. *)
FreeStep ==
    /\ md.m = "fs"
    /\ LET drp == md.x = "drp"
           own == ~drp \/ co[md.c].own = 1 IN
       /\ IF own THEN E("free",md.s,0) ELSE lab' = <<"tau">>
       /\ sk' = [sk EXCEPT ![md.s] = IF own THEN "free" ELSE "user"]
       /\ co' = IF drp THEN [co EXCEPT ![md.c] = NoCo] ELSE co
       /\ CASE md.x = "run" -> md' = Run /\ UNCHANGED ctl
            [] md.x = "osr" -> md' = M1("osr",0) /\ UNCHANGED ctl
            [] md.x = "unw" -> md' = Unw(md.p,0) /\ UNCHANGED ctl
            [] drp -> IF Top.k = "hcl" /\ Top.a = md.c
                      THEN /\ SetC(Pop(C))
                           /\ md' = IF Top.p.k = "none" THEN Run ELSE Unw(Top.p,0)
                      ELSE md' = Run /\ UNCHANGED ctl
    /\ UNCHANGED <<cur,stash>>

(* One step of unwinding with payload md.p. *)
UnwStep ==
    /\ md.m = "unw"
    /\ LET p == md.p IN
       IF md.v = 1
       THEN E("vdrop",0,0) /\ md' = [md EXCEPT !.v = 0] /\ UNCHANGED <<co,sk,ctl,stash>>
       ELSE CASE Top.k \in {"loc","clo","tclo"} ->
                   /\ E("drop",TopObj[1],TopObj[2]) /\ SetC(Pop(C))
                   /\ md' = IF Top.b = 1 THEN Abt ELSE md
                   /\ UNCHANGED <<co,sk,stash>>
              [] Top.k = "act" ->
                   /\ E("drop",TopObj[1],TopObj[2]) /\ SetC(Append(Pop(C),FCln(p)))
                   /\ md' = Run /\ UNCHANGED <<co,sk,stash>>
              [] Top.k = "hold" ->
                   /\ lab' = <<"tau">> /\ SetC(Append(Pop(C),FHcl(Top.a,0,p)))
                   /\ md' = Mode("sd",Top.a,2,NoP,0,"")
                   /\ UNCHANGED <<co,sk,stash>>
              [] Top.k = "got" ->
                   /\ IF Top.p.k = "user" THEN E("pdrop",Top.p.t,0) ELSE lab' = <<"tau">>
                   /\ SetC(Pop(C)) /\ UNCHANGED <<co,sk,md,stash>>
              [] Top.k = "cat" ->
                   /\ lab' = <<"E","caught",p.k,p.t>> /\ SetC(Append(Pop(C),FGot(p)))
                   /\ md' = Run /\ UNCHANGED <<co,sk,stash>>
              [] Top.k \in {"cln","hcl"} ->
                   /\ lab' = <<"tau">> /\ SetC(Pop(C)) /\ UNCHANGED <<co,sk,stash>>
                   /\ md' = IF Top.p.k = "none" THEN md ELSE Abt
              [] Top.k = "co" ->
                   LET c == Top.a how == Top.b
                       mine == p = FU(c) IN
                   /\ lab' = <<"tau">> /\ UNCHANGED sk
                   /\ IF ~Unwind \/ (how = 2 /\ ~mine)
                      THEN md' = Abt /\ SetC(Pop(C)) /\ UNCHANGED <<co,stash>>
                      ELSE IF how # 0 /\ mine
                      THEN Finish(c,how) /\ SetC(Pop(C)) /\ UNCHANGED stash
                      ELSE /\ LeaveCo(c, how, [co EXCEPT ![c].st = "done"], Pop(C))
                           /\ md' = md
              [] Top.k = "os" ->
                   /\ lab' = <<"tau">> /\ SetC(Pop(C)) /\ UNCHANGED <<co,stash>>
                   /\ IF ~Unwind THEN md' = Abt /\ UNCHANGED sk
                      ELSE IF Top.b = 1 THEN md' = FreeS(Top.a,"unw",p) /\ UNCHANGED sk
                      ELSE md' = md /\ sk' = [sk EXCEPT ![Top.a] = "user"]
              [] Top.k = "ps" ->
                   /\ lab' = <<"tau">> /\ SetC(Pop(C)) /\ UNCHANGED <<co,sk,stash>>
                   /\ md' = IF Unwind THEN md ELSE Abt
              [] Top.k = "main" ->
                   /\ lab' = <<"E","top",p.k,p.t>> /\ md' = Run
                   /\ UNCHANGED <<co,sk,ctl,stash>>
    /\ UNCHANGED cur

-----------------------------------------------------------------------------
(* Ending coroutines from outside.                                         *)

Force(c) == /\ May("Force") /\ Usable(c)
            /\ D("Force",c,0) /\ md' = Mode("sd",c,1,NoP,0,"")
            /\ UNCHANGED <<co,sk,ctl,cur,stash>>
Drop(c)  == /\ May("Drop") /\ co[c].st \in {"fresh","susp","done"} /\ ~Held(c)
            /\ D("Drop",c,0) /\ md' = Mode("sd",c,2,NoP,0,"")
            /\ UNCHANGED <<co,sk,ctl,cur,stash>>

(* into_stack of a coroutine that is not done panics, and the panic drops it. *)
IntoStack(c) ==
    /\ May("IntoStack") /\ co[c].st \in {"fresh","susp","done"} /\ ~Held(c)
    /\ D("IntoStack",c,0)
    /\ IF co[c].st = "done"
       THEN /\ sk' = [sk EXCEPT ![co[c].sk] = "user"]
            /\ co' = [co EXCEPT ![c] = NoCo] /\ md' = M1("isk",c) /\ UNCHANGED ctl
       ELSE /\ "Bad" \in Ops
            /\ md' = Mode("ihk",c,0,Msg,0,"") /\ UNCHANGED <<co,sk,ctl>>
    /\ UNCHANGED <<cur,stash>>
Isk == /\ md.m = "isk" /\ md' = Run /\ E("isk",md.c,0) /\ UNCHANGED <<co,sk,ctl,cur,stash>>
IntoHook == /\ md.m = "ihk" /\ lab' = <<"E","hook",md.p.k,md.p.t>>
            /\ Push(FHcl(md.c,1,md.p)) /\ md' = Mode("sd",md.c,2,NoP,0,"")
            /\ UNCHANGED <<co,sk,cur,stash>>

(* What may be discarded without running it, see the safety rules. *)
Simple(s) == ~HasK(s,{"hold","os","ps","hcl","tclo"}) /\ Pending(s) = {}

Reset(c) == /\ May("Reset") /\ Usable(c) /\ Simple(co[c].seg)
            /\ co' = [co EXCEPT ![c].st = "done", ![c].seg = <<>>]
            /\ D("Reset",c,0) /\ UNCHANGED <<sk,ctl,cur,md,stash>>

(* A trap directly in coroutine c whose handler asks for recovery. *)
Trap == /\ May("Trap") /\ InCo /\ Simple(Seg)
        /\ SetC(SubSeq(C,1,B) \o <<FTr>>) /\ md' = M1("trp",Cur) /\ D("Trap",Cur,0)
        /\ UNCHANGED <<co,sk,cur,stash>>
Trp == /\ md.m = "trp" /\ md' = Run /\ E("trp",md.c,0) /\ UNCHANGED <<co,sk,ctl,cur,stash>>

Switch(t) == /\ May("Switch") /\ t # cur /\ cur' = t /\ D("Switch",t,0)
             /\ UNCHANGED <<co,sk,ctl,md,stash>>

-----------------------------------------------------------------------------
Decision ==
    \/ \E s \in Ss : MkStack(s) \/ RmStack(s)
    \/ \E c \in Cs, s \in Ss, own \in Own, pan \in {0,1} : New(c,s,own,pan)
    \/ \E c \in Cs : \/ Resume(c) \/ Force(c) \/ Drop(c) \/ IntoStack(c)
                     \/ Reset(c) \/ PushHold(c)
    \/ Suspend \/ Return \/ EndOs \/ EndPs \/ OnParent
    \/ \E s \in Ss, own \in Own : OnStack(s,own)
    \/ \E pan \in {0,1} : PushLoc(pan)
    \/ PushAct \/ PushCat \/ End \/ Panic \/ Rethrow \/ Stash \/ Throw \/ Trap
    \/ \E t \in Ts : Switch(t)

Event ==
    \/ In \/ Yld \/ Ret \/ Swl \/ Captures \/ OsR \/ PsR \/ PopStep \/ Hook
    \/ StartDrop \/ Fud \/ FreeStep \/ UnwStep \/ Isk \/ IntoHook \/ Trp

Next == Decision \/ Event
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_core(Event)

=============================================================================
