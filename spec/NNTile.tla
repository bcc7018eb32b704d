-------------------------------- MODULE NNTile --------------------------------
(***************************************************************************)
(* The system as its user sees it: a memory of named tensors, changed by   *)
(* one request after another.  A request is either accepted, and then      *)
(* assigns exactly Writes(mem, a), or refused, and then changes nothing.   *)
(* There is no notion of tasks, workers or tiles here: Runtime.tla refines *)
(* this specification with those.                                          *)
(***************************************************************************)
EXTENDS Nets

VARIABLE mem                   \* name -> tensor record

TensorOk(t) ==
  /\ Len(t.shape) = Len(t.tile)
  /\ \A i \in 1..Len(t.shape) : t.shape[i] > 0 /\ t.tile[i] > 0
  /\ Len(t.val) = ProdSeq(t.shape)
TypeOK == \A f \in DOMAIN mem : TensorOk(mem[f])

Init == mem = <<>>

New(f, sh, ti, d, pr) ==
  mem' = (f :> [shape |-> sh, tile |-> ti, dt |-> d, prec |-> pr,
                val |-> Vec(ProdSeq(sh), LAMBDA p : Undef), ex |-> TRUE]) @@ mem
Set(f, v, e) == mem' = [mem EXCEPT ![f].val = v, ![f].ex = e]
Del(f) == mem' = [g \in (DOMAIN mem) \ {f} |-> mem[g]]

Acceptable(a) == NetTypesOk(mem, a) /\ NetValid(mem, a)
Accept(a) == Acceptable(a) = TRUE /\ mem' = Apply(mem, a)
Refuse(a) == Acceptable(a) = FALSE /\ mem' = mem

\* tolerance of a comparison with an exact / inexact expectation
Agree(t, v) ==
  /\ Len(v) = Len(t.val)
  /\ IF t.dt # "f" THEN \A p \in 1..Len(v) : t.val[p] = Undef \/ v[p] = t.val[p]
     ELSE IF t.ex THEN (IF t.prec = 64 THEN AllClose(v, t.val, 4, 0) ELSE AllClose(v, t.val, 4, 20))
     ELSE AllClose(v, t.val, 130, 9)
=============================================================================
