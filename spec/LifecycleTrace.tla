--------------------------- MODULE LifecycleTrace ---------------------------
(* Is the recorded use of the runtime, with the calls of the program marked *)
(* in it, a behaviour of Lifecycle?                                         *)
EXTENDS Lifecycle, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLE l

Range1(s) == {s[i] : i \in 1..Len(s)}
Keep == UNCHANGED <<own, call>>
Step(e) ==
  CASE e.e = "reg" -> LCRegister(e.h, e.v = 1)
    [] e.e = "unreg" -> e.acq = 0 /\ LCUnregister(e.h)
    [] e.e = "unregsub" -> LCUnregisterLater(e.t, e.b[1][1])
    [] e.e = "begin" -> Begin(e.o)
    [] e.e = "end" -> End
    [] e.e = "made" -> Made(e.o, Range1(e.hs), e.n)
    [] e.e = "shared" -> Shared(e.o, Range1(e.hs))
    [] e.e = "gone" -> e.n = 0 /\ AllGone
    [] e.e = "sub" -> Submit(e.t, e.b) /\ Keep
    [] e.e = "exe" -> Execute(e.t, e.eff) /\ Keep
    [] e.e = "merge" -> Merge(e.h) /\ Keep
    [] e.e = "acq" -> Acquire(e.h, e.m) /\ Keep
    [] e.e = "rel" -> e.oob = 0 /\ Release(e.h) /\ Keep
    [] e.e = "wait" -> WaitAll /\ Keep
    [] e.e = "shutdown" -> e.live = 0 /\ Shutdown /\ Keep
    [] e.e \in {"init", "mark"} -> UNCHANGED lcvars
    [] OTHER -> FALSE
RECURSIVE NextMark(_)
NextMark(i) == IF i > N THEN N + 1 ELSE IF Log[i].e = "init" THEN i ELSE NextMark(i + 1)

TraceInit == LCInit /\ l = 1
Ok(e) == ENABLED Step(e)
TraceNext ==
  /\ l <= N
  /\ LET e == Log[l]
     IN  \/ Step(e) /\ l' = l + 1
         \/ /\ ~Ok(e)
            /\ PrintT(<<"TRACE-REJECTED", l, ToJson([event |-> e, own |-> own, call |-> call])>>)
            /\ l' = NextMark(l + 1)
            /\ hdl' = <<>> /\ pend' = <<>> /\ own' = <<>> /\ call' = NoCall
TraceSpec == TraceInit /\ [][TraceNext]_<<lcvars, l>>
View == l
Done == l = N + 1 => PrintT(<<"TRACE-DONE", N>>)
=============================================================================
