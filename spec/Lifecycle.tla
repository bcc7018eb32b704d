------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Who keeps data alive.  Objects of the program (tensors, tiles, handles, *)
(* copies of them, views of their tiles, local accesses) own handles, a    *)
(* handle may have several owners.  Data is released by the call that ends *)
(* its last owner: at once (then everything submitted before is finished), *)
(* or deferred, when the data is temporary.  Handles registered within a   *)
(* call that constructs no object are gone, or released deferred, when the *)
(* call returns.  Nothing is released at any other time.                   *)
(***************************************************************************)
EXTENDS Runtime

VARIABLES own,    \* object -> set of handles
          call    \* [on, fresh, orphan]: handles made / due for release in the current call
lcvars == <<hdl, pend, own, call>>

NoCall == [on |-> FALSE, fresh |-> {}, orphan |-> {}]
LCInit == RTInit /\ own = <<>> /\ call = NoCall
Owned == UNION {own[o] : o \in DOMAIN own}
Leaves(o) == own[o] \ UNION {own[p] : p \in (DOMAIN own) \ {o}}

LCRegister(h, v) == /\ Register(h, v)
                    /\ call' = IF call.on THEN [call EXCEPT !.fresh = @ \cup {h}] ELSE call
                    /\ UNCHANGED own
\* due to be released
Due(h) == h \notin Owned /\ (~call.on \/ h \in call.fresh \cup call.orphan)
LCUnregister(h) == Due(h) /\ Unregister(h) /\ UNCHANGED <<own, call>>
LCUnregisterLater(t, h) == Due(h) /\ UnregisterLater(t, h) /\ UNCHANGED <<own, call>>

\* a call that ends object o (or nothing, o = "")
Begin(o) == /\ ~call.on
            /\ o = "" \/ o \in DOMAIN own
            /\ call' = [on |-> TRUE, fresh |-> {}, orphan |-> IF o = "" THEN {} ELSE Leaves(o)]
            /\ own' = IF o = "" THEN own ELSE [p \in (DOMAIN own) \ {o} |-> own[p]]
            /\ UNCHANGED rtvars
Left == {h \in call.fresh \cup call.orphan : Alive(h)}
End == /\ call.on /\ Left = {} /\ call' = NoCall /\ UNCHANGED <<rtvars, own>>
\* a call that made object o, of n new handles
Made(o, hs, n) == /\ call.on /\ Left = hs /\ Cardinality(hs) = n /\ o \notin DOMAIN own
                  /\ own' = (o :> hs) @@ own /\ call' = NoCall /\ UNCHANGED rtvars
\* an object that shares handles with others
Shared(o, hs) == /\ call.on /\ Left = {} /\ hs \subseteq Owned /\ o \notin DOMAIN own
                 /\ own' = (o :> hs) @@ own /\ call' = NoCall /\ UNCHANGED rtvars
\* the program has released everything and waited: nothing exists any more
AllGone == own = <<>> /\ hdl = <<>> /\ pend = <<>> /\ UNCHANGED lcvars
------------------------------------------------------------------------------
\* owners hold only live data, and every live datum has an owner between calls
OwnersHoldLive == \A o \in DOMAIN own : \A h \in own[o] : Alive(h)
NoLeak == ~call.on => \A h \in DOMAIN hdl : Alive(h) => h \in Owned
=============================================================================
