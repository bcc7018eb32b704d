---------------------------- MODULE RuntimeTrace ----------------------------
(***************************************************************************)
(* Is the recorded use of the runtime a behaviour of Runtime?  The runtime *)
(* writes one line per event; each must be an enabled step.  After a line  *)
(* that is not, checking resumes at the next mark of a new case.           *)
(***************************************************************************)
EXTENDS Runtime, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLE l

Step(e) ==
  CASE e.e = "reg" -> Register(e.h, e.v = 1)
    [] e.e = "sub" -> Submit(e.t, e.b)
    [] e.e = "exe" -> Execute(e.t, e.eff)
    [] e.e = "merge" -> Merge(e.h)
    [] e.e = "acq" -> Acquire(e.h, e.m)
    [] e.e = "rel" -> e.oob = 0 /\ Release(e.h)
    [] e.e = "unreg" -> e.acq = 0 /\ Unregister(e.h)
    [] e.e = "unregsub" -> UnregisterLater(e.t, e.b[1][1])
    [] e.e = "wait" -> WaitAll
    [] e.e = "shutdown" -> e.live = 0 /\ Shutdown
    \* the driver saw a blocking call return with work pending / a leak
    [] e.e = "idle" -> pend = <<>> /\ UNCHANGED rtvars
    [] e.e = "init" -> UNCHANGED rtvars
    [] e.e = "mark" -> UNCHANGED rtvars
    [] OTHER -> FALSE
RECURSIVE NextMark(_)
NextMark(i) == IF i > N THEN N + 1 ELSE IF Log[i].e = "init" THEN i ELSE NextMark(i + 1)

TraceInit == RTInit /\ l = 1
Ok(e) == ENABLED Step(e)
TraceNext ==
  /\ l <= N
  /\ LET e == Log[l]
     IN  \/ Step(e) /\ l' = l + 1
         \/ /\ ~Ok(e)
            /\ PrintT(<<"TRACE-REJECTED", l, ToJson(e)>>)
            /\ l' = NextMark(l + 1)
            /\ hdl' = <<>> /\ pend' = <<>>
TraceSpec == TraceInit /\ [][TraceNext]_<<rtvars, l>>
View == l
Done == l = N + 1 => PrintT(<<"TRACE-DONE", N>>)
=============================================================================
