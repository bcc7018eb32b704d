----------------------------- MODULE LifecycleMC -----------------------------
(***************************************************************************)
(* Every program that makes, copies and drops objects and submits tasks on *)
(* the data they own, under every schedule: if the library releases data   *)
(* only as Lifecycle allows, nobody ever holds or uses released data and   *)
(* nothing remains when all objects are gone.                              *)
(***************************************************************************)
EXTENDS Lifecycle

CONSTANTS NH, NT, Obj
VARIABLES th, tt       \* numbers of the next handle and task
mcvars == <<lcvars, th, tt>>

MCInit == LCInit /\ th = 1 /\ tt = 1
Same == UNCHANGED <<th, tt>>
CallBegin == (\E o \in (DOMAIN own) \cup {""} : Begin(o)) /\ Same
CallReg == th <= NH /\ call.on /\ LCRegister(th, FALSE) /\ th' = th + 1 /\ UNCHANGED tt
CallRel == \E h \in DOMAIN hdl : LCUnregister(h) /\ Same
CallRelLater == tt <= NT /\ (\E h \in DOMAIN hdl : LCUnregisterLater(tt, h)) /\ tt' = tt + 1 /\ UNCHANGED th
\* a constructor keeps the handles that are left; everything else leaves none
CallEnd == (End \/ \E o \in Obj : (Left # {} /\ call.orphan = {} /\ Made(o, Left, Cardinality(Left)))
                    \/ \E hs \in (SUBSET Owned) \ {{}} : call.fresh = {} /\ call.orphan = {} /\ Shared(o, hs)) /\ Same
\* within or outside calls, tasks use data that is owned or made in this call
MCSub == /\ tt <= NT
         /\ \E h \in Owned \cup call.fresh, g \in Owned \cup call.fresh :
              Submit(tt, IF h = g THEN << <<h, "W">> >> ELSE << <<h, "R">>, <<g, "W">> >>)
         /\ tt' = tt + 1 /\ UNCHANGED <<own, call, th>>
MCExe == \E t \in DOMAIN pend :
           /\ Runnable(t)
           /\ IF pend[t].kind = "del" THEN hdl' = [g \in (DOMAIN hdl) \ {pend[t].b[1][1]} |-> hdl[g]]
              ELSE UNCHANGED hdl
           /\ pend' = [s \in (DOMAIN pend) \ {t} |-> pend[s]]
           /\ UNCHANGED <<own, call, th, tt>>
MCNext == CallBegin \/ CallReg \/ CallRel \/ CallRelLater \/ CallEnd \/ MCSub \/ MCExe
MCSpec == MCInit /\ [][MCNext]_mcvars

AllReleased == (own = <<>> /\ ~call.on /\ pend = <<>>) => hdl = <<>>
\* a call that ends an object can always be completed
CanFinish == (call.on /\ pend = <<>>) => ENABLED CallRel \/ ENABLED CallEnd
------------------------------------------------------------------------------
\* Deliberately wrong rule, to see the invariants fail: everything o owned is due
GreedyLeaves(o) == own[o]
=============================================================================
