----------------------------- MODULE NNTileTrace -----------------------------
(***************************************************************************)
(* Is a recorded history of the implementation a behaviour of NNTile?      *)
(* A trace file holds independent cases; each line must be an enabled step *)
(* of the specification.  The specification is deterministic given a line, *)
(* so a case is accepted iff its last line is reached.  A rejected line is *)
(* printed (TRACE-REJECTED) and checking resumes with the next case.       *)
(***************************************************************************)
EXTENDS NNTile, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLE l

\* The step is one the specification can take
Guard(e) ==
  CASE e.k = "set" -> Len(e.v) = Size(mem[e.t])
    [] e.k = "op" -> CASE e.res = "ok" -> NetTypesOk(mem, e.a) /\ NetValid(mem, e.a)
                       [] e.res = "terr" -> ~NetTypesOk(mem, e.a)
                       [] e.res = "err" -> NetTypesOk(mem, e.a) /\ ~NetValid(mem, e.a)
                       [] OTHER -> FALSE
    [] e.k = "chk" -> Agree(mem[e.t], e.v)
    \* number of bytes of t that the runtime saw undefined when it was read
    [] e.k = "und" -> e.n = 0 \/ \E p \in 1..Size(mem[e.t]) : mem[e.t].val[p] = Undef
    \* number of data handles the runtime still knows after everything was released
    [] e.k = "live" -> e.n = 0
    [] OTHER -> e.k \in {"case", "new", "del"}
Effect(e) ==
  CASE e.k = "case" -> mem' = <<>>
    [] e.k = "new" -> New(e.t, e.sh, e.ti, e.dt, IF "p" \in DOMAIN e THEN e.p ELSE 32)
    [] e.k = "set" -> Set(e.t, e.v, e.ex)
    [] e.k = "del" -> Del(e.t)
    [] e.k = "op" /\ e.res = "ok" -> Accept(e.a)
    [] e.k = "op" /\ e.res # "ok" -> Refuse(e.a)
    [] OTHER -> UNCHANGED mem

\* what was expected where the trace stopped
Why(e) ==
  IF e.k = "chk" THEN [t |-> e.t, expected |-> mem[e.t].val, ex |-> mem[e.t].ex]
  ELSE IF e.k = "op" THEN [types |-> NetTypesOk(mem, e.a), valid |-> NetTypesOk(mem, e.a) /\ NetValid(mem, e.a)] ELSE <<>>
RECURSIVE NextCase(_)
NextCase(i) == IF i > N THEN N + 1 ELSE IF Log[i].k = "case" THEN i ELSE NextCase(i + 1)

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= N
  /\ LET e == Log[l]
     IN  IF Guard(e) THEN Effect(e) /\ l' = l + 1
         ELSE /\ PrintT(<<"TRACE-REJECTED", l, ToJson(Why(e))>>)
              /\ mem' = <<>> /\ l' = NextCase(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<mem, l>>
View == l
Done == l = N + 1 => PrintT(<<"TRACE-DONE", N>>)
=============================================================================
