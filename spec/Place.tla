------------------------------- MODULE Place -------------------------------
(***************************************************************************)
(* Placement of captured objects and entry into code on a stack.           *)
(*                                                                         *)
(* Abstract part: an object of a given size and alignment is placed below  *)
(* the stack's base (or below what is already there) the way the crate's   *)
(* documentation requires; TLC checks for every case that the placement is *)
(* aligned, inside the stack and leaves the entry stack pointer aligned.   *)
(*                                                                         *)
(* Concrete part: Rec is what the real code was observed to do, one record *)
(* per case; every record must be one that Allowed permits.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode      \* "gen": enumerate cases; "check": judge observations

SA == 16            \* stack alignment of the ABI
MaxObj == 1024      \* what the crate promises to be able to place
MinStack == 4096

Aligns == {1,2,4,8,16,32,64,128,256,512,1024,2048}
RoundUp(n,a) == ((n + a - 1) \div a) * a
RoundDown(n,a) == (n \div a) * a
(* sizes that exist for an alignment: multiples of it, around the limits *)
SizesFor(a) ==
    LET raw == {0,1,2,3,7,8,9,15,16,17,24,31,33,64,100,256,1000,1007,1008,1009,1016,1023,1024,1025,1040,2048}
    IN {RoundUp(n,a) : n \in raw}
(* "min": run and suspend on a stack of the minimum size *)
Acts == {"run","moved","fresh","force","reset","os","ps","rec","min"}
Residues == {0,16,32,48,240,1008,2032,4080}
Bases == {65536 - r : r \in Residues}

Cases == {[size |-> s, align |-> a, act |-> x, res |-> r] :
            <<s,a>> \in UNION {{<<s,a>> : s \in SizesFor(a)} : a \in Aligns}, x \in Acts, r \in Residues}
SmallEnough(c) == c.act = "min" => c.size <= 33 /\ c.align <= 16

Placeable(c) == c.size <= MaxObj /\ c.align <= MaxObj
(* a closure given to on_stack or on_parent_stack stays where it is *)
Placed(c) == c.act \notin {"os","ps"}

(* The design: where the object goes below base b, and the entry SP. *)
ObjAt(c,b) == IF c.align > SA THEN RoundDown(b - c.size, c.align) ELSE RoundDown(b - RoundUp(c.size,SA), SA)
EntrySP(c,b) == RoundDown(ObjAt(c,b) - 64, SA)
DesignOk(c) ==
    Placeable(c) =>
      LET b == 65536 - c.res  o == ObjAt(c,b) IN
      /\ o % c.align = 0
      /\ o + c.size <= b
      /\ EntrySP(c,b) % SA = 0
      /\ b - EntrySP(c,b) <= MinStack          \* fits on the smallest stack

-----------------------------------------------------------------------------
Rec == IF Mode = "check" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>

(* How often the object is destroyed, and the code runs, if accepted. *)
Drops(c) == IF c.act = "reset" THEN 0 ELSE 1
Runs(c) == IF c.act \in {"run","moved","min","os","ps","rec"} THEN 1 ELSE 0

Intact(o) == o.strips = 1 /\ o.stackdrops = 1

(* An accepted case: everything was aligned and inside. *)
Good(c,o) ==
    /\ o.runs = Runs(c)
    /\ o.drops = Drops(c)
    /\ Intact(o)
    /\ o.value = 1
    /\ o.misaligned = 0                        \* no address of the object was
    /\ (Runs(c) = 1 => /\ o.inside = 1         \* the stack pointer was
                       /\ (c.align <= SA => o.sp16 = 0))
    (* and code starts near the top of the stack it runs on *)
    /\ (Runs(c) = 1 => o.depth <= (IF c.act = "rec" THEN 8192 ELSE 6144) + 64*(c.size + c.align))

(* A refused case: a panic, after which nothing is lost or doubled. *)
Refused(c,o) ==
    /\ o.runs = 0 /\ o.drops = 1 /\ Intact(o)

Allowed(o) ==
    LET c == [size |-> o.size, align |-> o.align, act |-> o.act, res |-> o.res] IN
    CASE o.out = "ok"    -> Good(c,o)
      [] o.out = "panic" -> Placed(c) /\ ~Placeable(c) /\ Refused(c,o)
      [] OTHER -> FALSE

VARIABLES i, case
Nil == [size |-> 0, align |-> 0, act |-> "", res |-> 0]
Init == IF Mode = "gen" THEN i = 0 /\ case \in {c \in Cases : SmallEnough(c)} ELSE i = 0 /\ case = Nil
(* generation: every case is one behaviour, printed *)
Next == \/ Mode = "gen" /\ i = 0 /\ i' = 1 /\ UNCHANGED case
           /\ PrintT(<<"C", case.size, case.align, case.act, case.res>>)
        \/ Mode = "check" /\ i < Len(Rec) /\ i' = i + 1 /\ UNCHANGED case
DesignInv == Mode = "gen" => DesignOk(case)
Permitted == (Mode = "check" /\ i > 0) => Allowed(Rec[i])
=============================================================================
