------------------------------- MODULE Runtime -------------------------------
(***************************************************************************)
(* How requests are executed: every tile of a tensor is a handle, every    *)
(* request submits tasks that declare how they access handles, and the     *)
(* runtime executes a pending task whenever no earlier pending task        *)
(* conflicts with it.  The order among the others is arbitrary: each of    *)
(* the many choices of t in Execute is a schedule.                         *)
(*                                                                         *)
(* Access modes: R, W (old value is arbitrary), RW, C (read-write that     *)
(* commutes with other C), X (contribution to a reduction, made to a       *)
(* private copy that is merged later), S (scratch memory).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES hdl,        \* registered handle -> [st, init, open, acq, accw]
          pend        \* pending task -> [b: <<handle, mode>>*, kind]
rtvars == <<hdl, pend>>

Modes == {"R", "W", "RW", "C", "X", "S"}
Writing(m) == m \in {"W", "RW", "C", "X"}
\* what a task may do to a handle it accesses as m
NeedsValue(m) == m \in {"R", "RW", "C"}

\* two accesses of one handle that have to keep their order
Clash(m, n) == /\ m # "S" /\ n # "S"
               /\ ~(m = "R" /\ n = "R")
               /\ ~(m = "C" /\ n = "C")
               /\ ~(m = "X" /\ n = "X")
TaskClash(p, q) ==
  \E i \in 1..Len(p.b), j \in 1..Len(q.b) :
     /\ p.b[i][1] = q.b[j][1]
     /\ \/ Clash(p.b[i][2], q.b[j][2])
        \/ "del" \in {p.kind, q.kind} /\ "S" \notin {p.b[i][2], q.b[j][2]}
Runnable(t) == \A s \in DOMAIN pend : s < t => ~TaskClash(pend[s], pend[t])

Alive(h) == h \in DOMAIN hdl /\ hdl[h].st = "live"
\* the tasks of h that an access as m has to wait for
Blocks(h, m) == {t \in DOMAIN pend : TaskClash(pend[t], [b |-> <<<<h, m>>>>, kind |-> "task"])}

RTInit == hdl = <<>> /\ pend = <<>>

\* v: the handle is a view of application memory that has a value already
Register(h, v) ==
  /\ h \notin DOMAIN hdl
  /\ hdl' = (h :> [st |-> "live", init |-> v, open |-> FALSE, acq |-> 0, accw |-> FALSE]) @@ hdl
  /\ UNCHANGED pend

Submit(t, b) ==
  /\ \A s \in DOMAIN pend : s < t
  /\ \A i \in 1..Len(b) : Alive(b[i][1]) /\ b[i][2] \in Modes
  /\ pend' = (t :> [b |-> b, kind |-> "task"]) @@ pend
  /\ UNCHANGED hdl

\* everything task p may read has been given a value
ReadsDefined(p) ==
  \A i \in 1..Len(p.b) :
     NeedsValue(p.b[i][2]) => \/ hdl[p.b[i][1]].init \/ hdl[p.b[i][1]].open
                              \/ \E j \in 1..Len(p.b) : p.b[j][1] = p.b[i][1] /\ p.b[j][2] = "W"
\* eff[i] = <<changed, outside>>: whether the content of buffer i changed, and
\* whether memory next to it did
EffectDeclared(p, eff) ==
  /\ Len(eff) = Len(p.b)
  /\ \A i \in 1..Len(eff) :
       /\ eff[i][2] = 0
       /\ eff[i][1] = 0 \/ p.b[i][2] = "S"
            \/ \E j \in 1..Len(p.b) : p.b[j][1] = p.b[i][1] /\ Writing(p.b[j][2])
\* the handles whose value takes part (scratch memory lives as long as its users)
Touched(p) == {p.b[i][1] : i \in {j \in 1..Len(p.b) : p.b[j][2] # "S"}}
AccModes(p, h) == {p.b[i][2] : i \in {j \in 1..Len(p.b) : p.b[j][1] = h}}
After(p, h) ==
  LET r == hdl[h]  ms == AccModes(p, h)
  IN  IF ms = {"X"} THEN [r EXCEPT !.open = TRUE]
      ELSE [r EXCEPT !.open = FALSE,
                     !.init = r.init \/ r.open \/ \E m \in ms : m \in {"W", "RW", "C"}]
Execute(t, eff) ==
  /\ t \in DOMAIN pend
  /\ Runnable(t)
  /\ IF pend[t].kind = "del"
     THEN hdl' = [g \in (DOMAIN hdl) \ {pend[t].b[1][1]} |-> hdl[g]]
     ELSE /\ \A h \in Touched(pend[t]) : hdl[h].acq = 0 \/ (~hdl[h].accw /\ AccModes(pend[t], h) \subseteq {"R", "S"})
          /\ ReadsDefined(pend[t])
          /\ EffectDeclared(pend[t], eff)
          /\ hdl' = [h \in DOMAIN hdl |-> IF h \in Touched(pend[t]) THEN After(pend[t], h) ELSE hdl[h]]
  /\ pend' = [s \in (DOMAIN pend) \ {t} |-> pend[s]]

\* private copies of a reduction become part of the value
Merge(h) == /\ hdl[h].open
            /\ hdl' = [hdl EXCEPT ![h].open = FALSE, ![h].init = TRUE]
            /\ UNCHANGED pend

\* the application gets at the value of h (u: bytes of it that are arbitrary)
Acquire(h, m) ==
  /\ Alive(h) /\ Blocks(h, m) = {}
  /\ NeedsValue(m) => hdl[h].init \/ hdl[h].open
  /\ hdl' = [hdl EXCEPT ![h].acq = @ + 1, ![h].open = FALSE, ![h].accw = Writing(m),
                        ![h].init = @ \/ hdl[h].open \/ Writing(m)]
  /\ UNCHANGED pend
Release(h) == /\ h \in DOMAIN hdl /\ hdl[h].acq > 0
              /\ hdl' = [hdl EXCEPT ![h].acq = @ - 1]
              /\ UNCHANGED pend
Unregister(h) ==
  /\ Alive(h) /\ hdl[h].acq = 0
  /\ \A t \in DOMAIN pend : h \notin Touched(pend[t])
  /\ hdl' = [g \in (DOMAIN hdl) \ {h} |-> hdl[g]]
  /\ UNCHANGED pend
UnregisterLater(t, h) ==
  /\ Alive(h) /\ \A s \in DOMAIN pend : s < t
  /\ hdl' = [hdl EXCEPT ![h].st = "dying"]
  /\ pend' = (t :> [b |-> <<<<h, "RW">>>>, kind |-> "del"]) @@ pend
WaitAll == pend = <<>> /\ UNCHANGED rtvars
\* nothing is left when the runtime stops
Shutdown == /\ pend = <<>> /\ hdl = <<>>
            /\ UNCHANGED rtvars
------------------------------------------------------------------------------
\* every pending task uses handles that still exist
NoDangling == \A t \in DOMAIN pend : Touched(pend[t]) \subseteq DOMAIN hdl
\* some task can always proceed
NoStuck == pend # <<>> => \E t \in DOMAIN pend : Runnable(t)
=============================================================================
