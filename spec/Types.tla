------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* What the types of the crate allow.  Every initial state is a client     *)
(* program of one of the families below, with the verdict that the         *)
(* documentation requires the compiler to give: accept or reject.          *)
(*                                                                         *)
(*   A  which types may be sent to, and shared between, threads            *)
(*   P  what a closure may carry onto the resumer's stack                  *)
(*   B  borrowed data inside a coroutine                                   *)
(*   V  variance                                                           *)
(*   D  who owns the stack, and when: straight-line programs over one      *)
(*      stack and up to two coroutines                                     *)
(*   U  operations that need "unsafe", and operations that do not exist    *)
(*                                                                         *)
(* For family D the module also executes the program (Run) and TLC checks  *)
(* that every accepted program is free of misuse (Sound).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Families, MaxLen, MaxWrong, Deep

-----------------------------------------------------------------------------
(* Types.  all: an integer; cell: neither sharable; rc: neither sendable   *)
(* nor sharable; guard: sharable but not sendable.                         *)
Bases == {<<"all">>, <<"cell">>, <<"rc">>, <<"guard">>}
Stacks == {<<"dst">>} \cup {<<"st", b>> : b \in Bases}
AllStacks == Stacks \cup {<<"mut", s>> : s \in Stacks}

RECURSIVE Send(_), Sync(_)
Send(t) ==
    CASE t[1] \in {"all","cell","dst"} -> TRUE
      [] t[1] \in {"rc","guard"} -> FALSE
      [] t[1] = "st" -> Send(t[2])
      [] t[1] = "ref" -> Sync(t[2])
      [] t[1] \in {"mut","box"} -> Send(t[2])
      [] t[1] = "res" -> Send(t[2]) /\ Send(t[3])
      [] t[1] \in {"co","yi"} -> FALSE
      [] t[1] = "th" -> TRUE
Sync(t) ==
    CASE t[1] \in {"all","guard","dst"} -> TRUE
      [] t[1] \in {"cell","rc"} -> FALSE
      [] t[1] = "st" -> Sync(t[2])
      [] t[1] \in {"ref","mut","box"} -> Sync(t[2])
      [] t[1] = "res" -> Sync(t[2]) /\ Sync(t[3])
      [] t[1] = "co" -> Sync(t[5])          \* a shared coroutine gives access to its stack only
      [] t[1] = "yi" -> FALSE
      [] t[1] = "th" -> TRUE

(* Nobody can own a yielder (it is only ever seen by reference), so whether *)
(* an owned one could be sent is nothing a user relies on.                 *)
RECURSIVE OwnsYielder(_)
OwnsYielder(t) == t[1] = "yi" \/ (t[1] \in {"box","mut"} /\ OwnsYielder(t[2]))

Cos(Is, Ys, Rs, Ss) == {<<"co", i, y, r, s>> : i \in Is, y \in Ys, r \in Rs, s \in Ss}
Flat == Cos(Bases, Bases, Bases, Stacks)
Own == Cos(Bases, {<<"all">>}, Bases, AllStacks)
         \cup {<<"yi", i, y>> : i \in Bases, y \in Bases} \cup {<<"th", r>> : r \in Bases}
         \cup {<<"res", y, r>> : y \in Bases, r \in Bases}
Wrap(S) == {<<w, t>> : w \in {"ref","mut","box"}, t \in S}
Level1 == Own \cup Flat \cup Bases \cup AllStacks
Level2 == Level1 \cup Wrap(Own \cup Bases)
(* coroutines inside coroutines *)
Inner == {<<"co", <<"all">>, <<"all">>, <<"all">>, s>> : s \in {<<"dst">>, <<"st", <<"rc">>>>}}
           \cup {<<"yi", <<"all">>, <<"all">>>>, <<"th", <<"rc">>>>}
Nested == Cos(Inner, Inner, Inner, {<<"dst">>}) \cup {<<"yi", a, b>> : a \in Inner, b \in Inner}
Level3 == Level2 \cup Nested \cup Wrap(Wrap(Own) \cup Nested)

TypesA == IF Deep THEN Level3 ELSE Level2 \cup Nested
FamA == IF "A" \in Families THEN
          {<<"A", q, t, IF q = "send" THEN Send(t) ELSE Sync(t)>> : <<q,t>> \in {z \in {"send","sync"} \X TypesA : ~(z[1] = "send" /\ OwnsYielder(z[2]))}}
        ELSE {}

(* P: a closure carries a value by move, by reference or by mutable reference *)
Carried(how, t) == CASE how = "move" -> Send(t) [] how = "ref" -> Sync(t) [] how = "mut" -> Send(t)
TypesP == IF Deep THEN Level2 ELSE Own \cup Bases \cup Wrap(Bases) \cup Wrap({<<"yi", <<"all">>, <<"all">>>>})
FamP == IF "P" \in Families THEN
          {<<"P", a, h, t, a = "on_stack" \/ Carried(h, t)>> :
             a \in {"on_stack","on_parent_stack"}, <<h,t>> \in {z \in {"move","ref","mut"} \X TypesP : ~(z[1] # "ref" /\ OwnsYielder(z[2]))}}
        ELSE {}

(* B: a borrow of a local variable inside what a coroutine owns *)
FamB == IF "B" \in Families THEN
          {<<"B", a, r, b, b = "static" \/ r = "stack" \/ a \in {"on_stack","on_parent_stack"}>> :
             a \in {"new","with_stack","setup_trap_handler","on_stack","on_parent_stack"},
             r \in {"closure","input","yield","return","stack"}, b \in {"static","local"}}
        ELSE {}
(* not every combination is a program *)
IsProg(a, r) ==
    CASE a = "new" -> r # "stack"
      [] a = "with_stack" -> TRUE
      [] a = "setup_trap_handler" -> r = "closure"
      [] OTHER -> r \in {"closure","return"}

(* V: a value with lifetimes from[n] may be used where to[n] is expected   *)
(* when each parameter may lengthen (contravariant), shorten (covariant)   *)
(* or must stay (invariant).                                               *)
Par == [co  |-> <<"contra","co","co","co">>, comut |-> <<"inv","inv","inv","inv">>, coref |-> <<"contra","co","co","co">>,
        yi  |-> <<"co","contra">>, th |-> <<"contra">>, res |-> <<"co","co">>]
May(v, f, t) == CASE v = "co" -> (f = t \/ f = "long") [] v = "contra" -> (f = t \/ f = "short") [] v = "inv" -> f = t
LF == {"long","short"}
FamV == IF "V" \in Families THEN
          UNION {LET n == Len(Par[c]) IN
                 {<<"V", c, f, t, \A k \in 1..n : May(Par[c][k], f[k], t[k])>> : f \in [1..n -> LF], t \in [1..n -> LF]}
                 : c \in DOMAIN Par}
        ELSE {}

(* U *)
Units == {<<"force_reset","safe",FALSE>>, <<"force_reset","unsafe",TRUE>>,
          <<"setup_trap_handler","safe",FALSE>>, <<"setup_trap_handler","unsafe",TRUE>>,
          <<"impl_stack","safe",FALSE>>, <<"impl_stack","unsafe",TRUE>>,
          <<"clone_coroutine","safe",FALSE>>, <<"clone_yielder","safe",FALSE>>, <<"clone_handler","safe",TRUE>>,
          <<"copy_yielder","safe",FALSE>>, <<"copy_coroutine","safe",FALSE>>,
          <<"make_yielder","safe",FALSE>>, <<"make_handler","safe",FALSE>>, <<"make_coroutine","safe",FALSE>>,
          <<"default_yielder","safe",FALSE>>,
          <<"resume_inside","safe",FALSE>>, <<"drop_inside","safe",FALSE>>,
          <<"leak_yielder_out","safe",FALSE>>, <<"leak_yielder_return","safe",FALSE>>, <<"yielder_in_yield","safe",FALSE>>,
          <<"yielder_in_nested","safe",FALSE>>, <<"yielder_on_stack","safe",TRUE>>, <<"yielder_used","safe",TRUE>>,
          <<"resume_shared","safe",FALSE>>, <<"unwind_shared","safe",FALSE>>, <<"state_shared","safe",TRUE>>,
          <<"field_stack_ptr","safe",FALSE>>, <<"field_stack","safe",FALSE>>, <<"field_yielder","safe",FALSE>>,
          <<"wrong_input","safe",FALSE>>, <<"wrong_yield","safe",FALSE>>, <<"wrong_return","safe",FALSE>>, <<"right_values","safe",TRUE>>,
          <<"resume_twice_at_once","safe",FALSE>>, <<"spawn_coroutine","safe",FALSE>>, <<"spawn_handler","safe",TRUE>>,
          <<"share_yielder_scope","safe",FALSE>>, <<"share_coroutine_scope","safe",TRUE>>,
          <<"parent_suspend","safe",FALSE>>, <<"parent_parent","safe",FALSE>>, <<"parent_plain","safe",TRUE>>}
FamU == IF "U" \in Families THEN {<<"U", u[1], u[2], u[3]>> : u \in Units} ELSE {}

-----------------------------------------------------------------------------
(* D: straight-line programs.                                              *)
(*   own   c = coroutine on s itself       bor  c = coroutine on &mut s    *)
(*   bo2   d = coroutine on &mut s         res  c resumed                  *)
(*   re2   d resumed                       shr  r = &c        usr  r used  *)
(*   mut   m = &mut c                      usm  m used (resumes)           *)
(*   drp   c dropped                       int  t = c.into_stack()         *)
(*   ust   t used        t2c  d = coroutine on t                           *)
(*   uss   s used        drs  s dropped                                    *)
(*   hnd   h = c.trap_handler()            ush  h used                     *)
(*   esc   c returned to the caller                                        *)
(* Variables: late = TRUE declares c before s.                             *)
Stmts == {"own","bor","bo2","res","re2","shr","usr","mut","usm","drp","int","ust","t2c","uss","drs","hnd","ush","esc"}
Def(x) == CASE x \in {"own","bor"} -> "c" [] x \in {"bo2","t2c"} -> "d" [] x = "shr" -> "r" [] x = "mut" -> "m"
            [] x = "int" -> "t" [] x = "hnd" -> "h" [] OTHER -> ""
Needs(x) == CASE x \in {"own","bor","bo2","uss","drs"} -> "s" [] x \in {"res","shr","mut","drp","int","hnd","esc"} -> "c"
              [] x = "re2" -> "d" [] x = "usr" -> "r" [] x = "usm" -> "m" [] x \in {"ust","t2c"} -> "t" [] x = "ush" -> "h"
(* s, c moved out of their variable by the statement *)
Moves(x) == CASE x \in {"own","drs"} -> "s" [] x \in {"drp","int","esc"} -> "c" [] x = "t2c" -> "t" [] OTHER -> ""

Declared(p, v) == v = "s" \/ \E n \in DOMAIN p : Def(p[n]) = v
CanAdd(p, x) == /\ Declared(p, Needs(x))
                /\ (Def(x) = "" \/ ~Declared(p, Def(x)))
                /\ (Len(p) > 0 => p[Len(p)] # "esc")
                /\ (Len(p) > 0 /\ x \in {"usr","usm","ush","uss","ust"} => p[Len(p)] # x)     \* twice in a row adds nothing
Index(p, v) == CHOOSE n \in DOMAIN p : Def(p[n]) = v
First(p, v) == IF \E n \in DOMAIN p : Def(p[n]) = v THEN Index(p, v) ELSE 0
MovedBefore(p, v, n) == \E k \in 1..(n-1) : Moves(p[k]) = v
LastUse(p, v) == LET U == {n \in DOMAIN p : Needs(p[n]) = v} IN IF U = {} THEN 0 ELSE CHOOSE n \in U : \A k \in U : k <= n
Borrowed(p) == \E n \in DOMAIN p : p[n] = "bor"
End(p) == Len(p) + 1

(* How long the loan of s that v holds lasts.  A coroutine runs code when  *)
(* it goes out of scope, so it counts as used there unless it was moved.   *)
RECURSIVE LoanEnd(_, _)
LoanEnd(p, v) ==
    IF First(p, v) = 0 THEN 0
    ELSE CASE v = "c" -> LET mv == {n \in DOMAIN p : Moves(p[n]) = "c"} IN
                         IF mv = {} THEN End(p)
                         ELSE LET n == CHOOSE n \in mv : \A k \in mv : n <= k IN
                              IF p[n] = "int" THEN LET te == LoanEnd(p, "t") IN IF te > n THEN te ELSE n
                              ELSE IF p[n] = "esc" THEN End(p) + 1 ELSE n
           [] v = "t" -> LET a == LastUse(p, "t") IN
                         IF \E n \in DOMAIN p : p[n] = "t2c" THEN End(p) ELSE a
           [] OTHER -> End(p)            \* d is never moved
(* a reference to c is live until its last use *)
RefLive(p, v, n) == First(p, v) # 0 /\ First(p, v) < n /\ n <= LastUse(p, v)

MutC(x) == x \in {"res","mut","drp","int","esc"}
AccessS(x) == x \in {"own","bor","bo2","uss","drs"}

Ok(p, late, n) ==
    LET x == p[n] IN
    /\ ~MovedBefore(p, Needs(x), n)
    (* references to c *)
    /\ (MutC(x) => ~RefLive(p, "r", n))
    /\ (Needs(x) = "c" => ~RefLive(p, "m", n))
    (* loans of s *)
    /\ (AccessS(x) => /\ ~(Borrowed(p) /\ First(p, "c") < n /\ n <= LoanEnd(p, "c"))
                      /\ ~(\E k \in DOMAIN p : p[k] = "bo2" /\ k < n))
    (* a coroutine with borrowed data does not leave the function *)
    /\ (x = "esc" => ~Borrowed(p))
(* at the end of the scope, s goes before what was declared before it *)
EndOk(p, late) ==
    late => ~(Borrowed(p) /\ ~(\E n \in DOMAIN p : Moves(p[n]) = "c"))
Accept(p, late) == (\A n \in DOMAIN p : Ok(p, late, n)) /\ EndOk(p, late)

(* What the program would do if it were run: the state of s, of the stack  *)
(* memory, and of the coroutines on it.                                    *)
Start == [s |-> "here", mem |-> TRUE, user |-> {}, co |-> [c |-> "no", d |-> "no"], t |-> "no", bad |-> FALSE, made |-> [c |-> "", d |-> ""]]
LiveCo(z, v) == z.co[v] \in {"live"}
UseCo(z, v) == IF LiveCo(z, v) /\ z.mem /\ z.user = {v} THEN z ELSE [z EXCEPT !.bad = TRUE]
KillCo(z, v) == IF z.co[v] # "live" THEN [z EXCEPT !.bad = TRUE]
                ELSE LET y == UseCo(z, v) IN [y EXCEPT !.co[v] = "gone", !.user = @ \ {v},
                                                     !.mem = IF z.made[v] = "own" THEN FALSE ELSE @]
Exec(z, x) ==
    CASE x = "own" -> IF z.s = "here" THEN [z EXCEPT !.s = "moved", !.user = @ \cup {"c"}, !.co.c = "live", !.made.c = "own"]
                      ELSE [z EXCEPT !.bad = TRUE]
      [] x = "bor" -> IF z.s = "here" THEN [z EXCEPT !.user = @ \cup {"c"}, !.co.c = "live", !.made.c = "bor"]
                      ELSE [z EXCEPT !.bad = TRUE]
      [] x = "bo2" -> IF z.s = "here" THEN [z EXCEPT !.user = @ \cup {"d"}, !.co.d = "live", !.made.d = "bor"]
                      ELSE [z EXCEPT !.bad = TRUE]
      [] x \in {"res","shr","mut","usr","usm","hnd"} -> UseCo(z, "c")
      [] x = "re2" -> UseCo(z, "d")
      [] x = "drp" -> KillCo(z, "c")
      [] x = "esc" -> UseCo(z, "c")
      [] x = "int" -> IF LiveCo(z, "c") THEN [z EXCEPT !.co.c = "gone", !.user = @ \ {"c"}, !.t = "here"]
                      ELSE [z EXCEPT !.bad = TRUE]
      [] x = "ust" -> IF z.t = "here" /\ z.mem /\ z.user = {} THEN z ELSE [z EXCEPT !.bad = TRUE]
      [] x = "t2c" -> IF z.t = "here" /\ z.mem THEN [z EXCEPT !.t = "gone", !.user = @ \cup {"d"}, !.co.d = "live", !.made.d = z.made.c]
                      ELSE [z EXCEPT !.bad = TRUE]
      [] x = "uss" -> IF z.s = "here" /\ z.user = {} THEN z ELSE [z EXCEPT !.bad = TRUE]
      [] x = "drs" -> IF z.s = "here" /\ z.user = {} THEN [z EXCEPT !.s = "moved", !.mem = FALSE] ELSE [z EXCEPT !.bad = TRUE]
      [] x = "ush" -> z
RECURSIVE Run(_, _, _)
Run(p, n, z) == IF n > Len(p) THEN z ELSE Run(p, n + 1, Exec(z, p[n]))
(* leaving the scope *)
Leave(z, late) ==
    LET dropD(y) == IF y.co.d = "live" THEN KillCo(y, "d") ELSE y
        dropC(y) == IF y.co.c = "live" THEN KillCo(y, "c") ELSE y
        dropS(y) == IF y.s = "here" THEN (IF y.user # {} THEN [y EXCEPT !.bad = TRUE] ELSE [y EXCEPT !.s = "gone", !.mem = FALSE]) ELSE y
    IN IF late THEN dropC(dropS(dropD(z))) ELSE dropS(dropC(dropD(z)))
(* a coroutine that escapes lives on after the scope *)
Misuse(p, late) ==
    LET z == Run(p, 1, Start) IN
    IF Len(p) > 0 /\ p[Len(p)] = "esc" THEN (z.bad \/ (z.made.c = "bor") \/ Cardinality(z.user) > 1)
    ELSE Leave(z, late).bad

-----------------------------------------------------------------------------
VARIABLES prog
vars == <<prog>>

Fixed == FamA \cup FamP \cup {x \in FamB : IsProg(x[2], x[3])} \cup FamV \cup FamU
InitD == IF "D" \in Families THEN {<<"D", FALSE, <<>>>>, <<"D", TRUE, <<"own">>>>, <<"D", TRUE, <<"bor">>>>} ELSE {}
Init == prog \in Fixed \cup InitD
Next == /\ prog[1] = "D"
        /\ Len(prog[3]) < MaxLen
        (* what is wrong stays wrong: only short wrong programs are extended *)
        /\ Len(prog[3]) < MaxWrong \/ \A n \in DOMAIN prog[3] : Ok(prog[3], prog[2], n)
        /\ \E x \in Stmts : CanAdd(prog[3], x) /\ prog' = <<"D", prog[2], Append(prog[3], x)>>

Verdict(g) == IF g[1] = "D" THEN Accept(g[3], g[2]) ELSE g[Len(g)]
Sound == (prog[1] = "D" /\ Accept(prog[3], prog[2])) => ~Misuse(prog[3], prog[2])
(* the rules do not depend on statements that follow, but for the loans    *)
Wrong(p, late) == \E n \in DOMAIN p : ~Ok(p, late, n)
Stays == (prog[1] = "D" /\ Len(prog[3]) > 0) =>
           (Wrong(SubSeq(prog[3], 1, Len(prog[3]) - 1), prog[2]) => Wrong(prog[3], prog[2]))
(* When c was declared before s, borrowed s and was moved out again, it is  *)
(* up to the compiler whether it sees that this is sound.                  *)
Said == prog[1] = "D" => /\ prog[3] # <<>>
                         /\ ~(prog[2] /\ Borrowed(prog[3]) /\ \E n \in DOMAIN prog[3] : Moves(prog[3][n]) = "c")
Emit == ~Said \/ PrintT(ToString(IF prog[1] = "D" THEN Append(prog, Verdict(prog)) ELSE prog))
=============================================================================
