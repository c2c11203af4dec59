-------------------------------- MODULE Tower --------------------------------
(* Hundreds of coroutines and stacks of Coro in use at once, one inside the  *)
(* other.  The program builds a tower (each coroutine, or function on        *)
(* another stack, starts the next), takes it down in its manner, and gives   *)
(* everything back.  Of what it might do it does what a generator of         *)
(* pseudo-random numbers says, so that there is one behaviour to each seed.  *)
EXTENDS Graph

CONSTANTS Seed, Manner   \* "ret", "susp", "hold", "panic"

VARIABLES phase, rnd

TView == <<core, phase, rnd>>
Next1(x) == (x * 1103 + 12345) % 65536

(* the first coroutine or stack with a status in S, or 0; the last *)
Min(X,n) == (CHOOSE i \in 1..(n+1) : i = n+1 \/ i \in X) % (n+1)
Co(S) == Min({c \in Cs : co[c].st \in S}, NC)
CoDown(S) == LET X == {c \in Cs : co[c].st \in S}
             IN NC - (CHOOSE i \in 0..NC : i = NC \/ (NC-i) \in X)
Stk(st) == Min({k \in Ss : sk[k] = st}, NS)

(* coroutines under way *)
Height == Cardinality({c \in Cs : co[c].st = "run"})

Up == LET f == Co({"fresh"}) u == Stk("user")
          more == Len(Seg) < MaxSeg - 3
          loc == IF Top.k # "loc" /\ more THEN <<<<"Loc">>>> ELSE <<>>
          cat == IF Manner = "panic" /\ more /\ rnd % 5 = 0 THEN <<<<"Catch">>>> ELSE <<>>
      IN IF f # 0 THEN <<<<"Resume",f>>>> \o loc \o cat
         ELSE IF u # 0
         THEN <<<<"New",u,1>>,<<"New",u,0>>>> \o loc
              \o (IF more THEN <<<<"OnStack",u,1>>,<<"OnStack",u,0>>>> ELSE <<>>)
         ELSE <<<<"MkStack",Stk("free")>>>> \o loc
              \o (IF more /\ InCo /\ Plain /\ Manner # "hold" THEN <<<<"OnParent">>>> ELSE <<>>)

(* 1: up, 2: at the top, 3: down, 4: giving back *)
Ph == CASE phase = 1 -> IF Height = NC THEN 2 ELSE 1
        [] phase \in {2,3} -> IF Len(C) = 1 THEN 4 ELSE 3
        [] OTHER -> 4

\* leaving the innermost frame
Out1 == CASE Top.k = "clo" /\ Below.k = "co" -> <<<<"Return">>>>
          [] Top.k = "clo" /\ Below.k = "os" -> <<<<"EndOs">>>>
          [] Top.k = "clo" /\ Below.k = "ps" -> <<<<"EndPs">>>>
          [] OTHER -> <<<<"End">>>>
Child == Height + 1
Down == CASE Manner = "ret" -> Out1
          [] Manner = "panic" -> IF Ph = 2 THEN <<<<"Panic">>>>
                                 ELSE IF Top.k = "got" THEN <<<<"Rethrow">>,<<"Rethrow">>,<<"End">>>>
                                 ELSE IF rnd % 3 = 0 /\ FreePays # {} THEN <<<<"Panic">>>> ELSE Out1
          [] Manner \in {"susp","hold"} ->
               IF Manner = "hold" /\ Child <= NC /\ co[Child].st = "susp" /\ ~Held(Child)
               THEN <<<<"Hold",Child>>>>
               ELSE IF InCo /\ Plain THEN <<<<"Suspend">>>> ELSE Out1
Close == IF Len(C) > 1 THEN Out1
         ELSE LET a == Co({"fresh","susp","done"}) z == CoDown({"fresh","susp","done"})
                  u == Stk("user")
                  All(c) == IF Held(c) THEN <<>>
                            ELSE IF co[c].st = "done" THEN <<<<"Drop",c>>,<<"IntoStack",c>>>>
                            ELSE <<<<"Force",c>>,<<"Resume",c>>,<<"Drop",c>>>>
              IN IF a # 0 THEN All(a) \o All(z)
                 ELSE IF u # 0 THEN <<<<"RmStack",u>>>> ELSE <<>>
Opts == CASE Ph = 1 -> Up [] Ph = 4 -> Close [] OTHER -> Down

Do(o) == CASE o[1] = "Resume" -> Resume(o[2])
           [] o[1] = "Force" -> Force(o[2])
           [] o[1] = "Drop" -> Drop(o[2])
           [] o[1] = "IntoStack" -> IntoStack(o[2])
           [] o[1] = "Hold" -> PushHold(o[2])
           [] o[1] = "New" -> New(Co({"none"}),o[2],o[3],0)
           [] o[1] = "OnStack" -> OnStack(o[2],o[3])
           [] o[1] = "MkStack" -> MkStack(o[2])
           [] o[1] = "RmStack" -> RmStack(o[2])
           [] o[1] = "OnParent" -> OnParent
           [] o[1] = "Loc" -> PushLoc(0)
           [] o[1] = "Catch" -> PushCat
           [] o[1] = "End" -> End
           [] o[1] = "Return" -> Return
           [] o[1] = "EndOs" -> EndOs
           [] o[1] = "EndPs" -> EndPs
           [] o[1] = "Suspend" -> Suspend
           [] o[1] = "Panic" -> Panic
           [] o[1] = "Rethrow" -> Rethrow

TInit == Init /\ from = 0 /\ at = 0 /\ phase = 1 /\ rnd = Seed
TNext == /\ IF md.m = "run"
            THEN /\ Opts # <<>> /\ Do(Opts[1 + ((rnd \div 64) % Len(Opts))])
                 /\ rnd' = Next1(rnd)
            ELSE Event /\ rnd' = rnd
         /\ phase' = IF md.m = "run" THEN Ph ELSE phase
         /\ UNCHANGED ghosts
TOut == PrintT(ToString(<<lab', md.m, md.s, Obs>>))
=============================================================================
