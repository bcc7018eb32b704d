------------------------------ MODULE RuntimeMC ------------------------------
(***************************************************************************)
(* Every program of up to NT tasks on the handles H, submitted by an       *)
(* application that may look at data at any time, under every schedule:    *)
(* whatever the order of execution, what the application sees is what      *)
(* executing the tasks one after another in submission order gives.        *)
(* Values are terms: task t yields a value nothing else yields, computed   *)
(* from the values it reads; commuting contributions form a set.           *)
(***************************************************************************)
EXTENDS Runtime

CONSTANTS H, NT, TaskModes

VARIABLES val,       \* handle -> value in memory
          copies,    \* handle -> contributions in private copies
          ref,       \* handle -> value after sequential execution of all submitted tasks
          nxt        \* number of the next task
vars == <<rtvars, val, copies, ref, nxt>>

Bot == [base |-> <<>>, adds |-> {}]
\* the value task t with accesses b leaves in h, given a memory m
Inputs(b, m) == [i \in {j \in 1..Len(b) : b[j][2] \in {"R", "RW"}} |-> m[b[i][1]]]
New1(t, b, h, md, m) ==
  CASE md = "W" -> [base |-> <<t, Inputs(b, m)>>, adds |-> {}]
    [] md = "RW" -> [base |-> <<t, Inputs(b, m), m[h]>>, adds |-> {}]
    [] md \in {"C", "X"} -> [m[h] EXCEPT !.adds = @ \cup {<<t, Inputs(b, m)>>}]
    [] md = "R" -> m[h]
ModeOf(b, h) == LET s == {i \in 1..Len(b) : b[i][1] = h} IN IF s = {} THEN "R" ELSE b[CHOOSE i \in s : TRUE][2]
Run1(t, b, m) == [h \in H |-> New1(t, b, h, ModeOf(b, h), m)]

\* all ways to access the handles: at least one written
RECURSIVE SeqOf(_, _)
SeqOf(f, hs) == IF hs = {} THEN <<>>
                ELSE LET h == CHOOSE x \in hs : \A y \in hs : x <= y
                     IN  (IF f[h] = "-" THEN <<>> ELSE <<<<h, f[h]>>>>) \o SeqOf(f, hs \ {h})
Bufs == {SeqOf(f, H) : f \in {g \in [H -> TaskModes \cup {"-"}] : \E h \in H : g[h] \in {"W", "RW", "C", "X"}}}

MCInit == /\ hdl = [h \in H |-> [st |-> "live", init |-> TRUE, open |-> FALSE, acq |-> 0, accw |-> FALSE]]
          /\ pend = <<>>
          /\ val = [h \in H |-> [base |-> <<0, h>>, adds |-> {}]]
          /\ ref = val
          /\ copies = [h \in H |-> {}]
          /\ nxt = 1

MCSubmit == /\ nxt <= NT
            /\ \E b \in Bufs : /\ Submit(nxt, b)
                               /\ ref' = Run1(nxt, b, ref)
            /\ nxt' = nxt + 1
            /\ UNCHANGED <<val, copies>>

\* memory with the private copies of a handle merged in
Seen == [h \in H |-> [val[h] EXCEPT !.adds = @ \cup copies[h]]]
MCExecute == \E t \in DOMAIN pend :
  LET b == pend[t].b
      \* a handle accessed normally has its copies merged before
      m == [h \in H |-> IF ModeOf(b, h) # "X" /\ \E i \in 1..Len(b) : b[i][1] = h THEN Seen[h] ELSE val[h]]
      r == Run1(t, b, m)
      xs == {h \in H : ModeOf(b, h) = "X"}
      used == {h \in H : \E i \in 1..Len(b) : b[i][1] = h}
  IN  /\ Execute(t, [i \in 1..Len(b) |-> <<IF Writing(b[i][2]) THEN 1 ELSE 0, 0>>])
      /\ val' = [h \in H |-> IF h \in xs THEN val[h] ELSE r[h]]
      /\ copies' = [h \in H |-> IF h \in xs THEN copies[h] \cup {<<t, Inputs(b, m)>>}
                                ELSE IF h \in used THEN {} ELSE copies[h]]
      /\ UNCHANGED <<ref, nxt>>
MCMerge == \E h \in H : /\ Merge(h) /\ val' = [val EXCEPT ![h] = Seen[h]] /\ copies' = [copies EXCEPT ![h] = {}]
                        /\ UNCHANGED <<ref, nxt>>
MCNext == MCSubmit \/ MCExecute \/ MCMerge
MCSpec == MCInit /\ [][MCNext]_vars

\* what an acquisition of h would give is what sequential execution gives
Consistent == \A h \in H : Blocks(h, "R") = {} => Seen[h] = ref[h]
Quiet == pend = <<>> => \A h \in H : Seen[h] = ref[h]
------------------------------------------------------------------------------
\* Deliberately wrong rules, to see the invariants fail
LateReaderClash(m, n) == m # "S" /\ n # "S" /\ m # "R" /\ ~(m = "C" /\ n = "C") /\ ~(m = "X" /\ n = "X")
AllCommuteClash(m, n) == m # "S" /\ n # "S" /\ ~(m = "R" /\ n = "R") /\ ~(m \in {"C", "X"} /\ n \in {"C", "X", "RW"})
=============================================================================
