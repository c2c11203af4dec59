-------------------------------- MODULE Rand --------------------------------
(* Long random histories of larger instances of Coro (TLC -simulate).        *)
(* Once `left' decisions have been taken the program winds down: it leaves   *)
(* what it is in and gives everything back.  A calm program avoids what      *)
(* would abort it.                                                           *)
EXTENDS Graph

CONSTANTS Long, Calm
VARIABLES left, out

Closing == {"End","Return","EndOs","EndPs","Drop","RmStack","Rethrow","Throw","Switch"}
Dec == md.m = "run"

(* A panic raised on top of s is caught before it can abort the process. *)
Barrier(f) == \/ f.k \in {"cln","hcl"} /\ f.p.k # "none"
              \/ f.k = "co" /\ (f.b = 2 \/ ~Unwind)
              \/ f.k \in {"os","ps"} /\ ~Unwind
SafeRaise(s) == LET f(S) == MaxOf({0} \cup S) IN
                f({i \in 1..Len(s) : s[i].k \in {"cat","main"}}) > f({i \in 1..Len(s) : Barrier(s[i])})
Passes == Top.k = "got" /\ InCo /\ C[B].b # 0 /\ Top.p = FU(Cur) /\ Pending(Seg) = {}
Leaves == \/ C[B].b = 0
          \/ C[B].b = 1 /\ SafeRaise(SubSeq(C,1,B-1))
Quiet(op,a) ==
    CASE op \in {"Panic","Throw"} -> SafeRaise(C)
      [] op = "Rethrow" -> Passes \/ SafeRaise(C)
      [] op = "Resume" -> co[a].st = "done" => SafeRaise(C)
      [] op = "IntoStack" -> co[a].st = "done" \/ SafeRaise(C)
      [] op = "Force" -> (co[a].st = "susp" /\ ~Unwind) => SafeRaise(C)
      [] op \in {"Drop","Hold"} -> Unwind \/ co[a].st # "susp"
      [] op \in {"Suspend","Return"} -> Leaves
      [] OTHER -> TRUE

(* From thread to thread until all are back in their main loops. *)
Settles(t) == Len(C) = 1 /\ (Len(ctl[t]) > 1 \/ (t = 1 /\ \A u \in Ts : Len(ctl[u]) = 1))

RInit == PInit /\ left = Long /\ out = ""
RNext == /\ PNext
         /\ Dec => /\ (left = 0 => /\ lab'[2] \in Closing
                                   /\ (lab'[2] = "Switch" => Settles(lab'[3]))
                                   /\ (lab'[2] = "Throw" => Len(C) = 1))
                   /\ Calm => Quiet(lab'[2],lab'[3])
         /\ left' = IF Dec /\ left > 0 THEN left - 1 ELSE left
         /\ out' = ToString(<<lab', md.m, md.s, Obs>>)
RView == <<core, ghosts, left>>
=============================================================================
