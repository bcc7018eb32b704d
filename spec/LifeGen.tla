------------------------------- MODULE LifeGen -------------------------------
(***************************************************************************)
(* Generator of life histories: objects that own data are made, copied,    *)
(* viewed, used by tasks, accessed locally and released in any order.      *)
(* Handles are abstract numbers here; the driver maps them to real ones.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, MaxObj
VARIABLES obj,     \* object -> [k: kind, hs: handles, acq]
          has,     \* handle -> it has a value
          no, nh, log, done
vars == <<obj, has, no, nh, log, done>>

Pick(s) == RandomElement(s)
\* one random element of a set, as a set
One(s) == IF s = {} THEN {} ELSE {RandomElement(s)}
Put(e) == log' = Append(log, e)
Objs == DOMAIN obj
Data == {o \in Objs : obj[o].k # "local"}
Locals == {o \in Objs : obj[o].k = "local"}
\* local accesses to a handle, by mode
AccBy(h, m) == {o \in Locals : obj[o].hs[1] = h /\ obj[o].acq = m}
Free(h) == AccBy(h, "W") = {} /\ AccBy(h, "RW") = {} /\ AccBy(h, "R") = {}
Readable(h) == has[h] /\ AccBy(h, "W") = {} /\ AccBy(h, "RW") = {}
Spots == UNION {{<<o, i>> : i \in 1..Len(obj[o].hs)} : o \in Data}
At(s) == obj[s[1]].hs[s[2]]

Ext(n, v) == [h \in (DOMAIN has) \cup {nh + i - 1 : i \in 1..n} |-> IF h \in DOMAIN has THEN has[h] ELSE v]
Make(k, n, v, e) ==
  /\ Cardinality(Objs) < MaxObj
  /\ obj' = (no :> [k |-> k, hs |-> [i \in 1..n |-> nh + i - 1], acq |-> "-", w |-> IF "w" \in DOMAIN e THEN e.w ELSE n]) @@ obj
  /\ has' = Ext(n, v)
  /\ nh' = nh + n /\ no' = no + 1
  /\ Put([k |-> "make", o |-> no, kind |-> k, n |-> n, hs |-> [i \in 1..n |-> nh + i - 1]] @@ e)
  /\ UNCHANGED done
Share(k, hs, acq, e) ==
  /\ Cardinality(Objs) < MaxObj
  /\ obj' = (no :> [k |-> k, hs |-> hs, acq |-> acq, w |-> Len(hs)]) @@ obj
  /\ no' = no + 1
  /\ Put([o |-> no, hs |-> hs] @@ e)
  /\ UNCHANGED <<nh, done>>

New ==
  \/ \E m \in {Pick(0..3)} : Make("var", 1, FALSE, [mode |-> m])
  \/ \E m \in {Pick(0..2)} : Make("on", 1, TRUE, [mode |-> m])
  \/ Make("tile", 1, FALSE, [mode |-> 0])
  \/ Make("tileon", 1, TRUE, [mode |-> 2])
  \/ \E n \in {Pick(1..3)} : Make("tensor", n, FALSE, [mode |-> 0])
  \/ \E n \in {Pick(1..3)} : Make("py", n, FALSE, [mode |-> 0, w |-> n])
  \/ \E w \in {Pick(1..3)} : Make("py", 1, FALSE, [mode |-> 0, w |-> w])
\* constructions that are refused leave nothing behind
Bad == RandomElement(1..3) = 1 /\ \E w \in {Pick({"mode", "zero", "size", "dist", "tile"})} :
         Put([k |-> "bad", w |-> w]) /\ UNCHANGED <<obj, has, no, nh, done>>
CopyObj == \E o \in One({o \in Data : obj[o].k \notin {"py", "pytile"}}) :
             Share(obj[o].k, obj[o].hs, "-", [k |-> "copy", from |-> o]) /\ UNCHANGED has
View == \E o \in One({o \in Data : obj[o].k \in {"tile", "tileon", "tensor", "py"}}) :
          \E i \in {Pick(1..Len(obj[o].hs))} :
             Share(IF obj[o].k = "tensor" THEN "tile" ELSE IF obj[o].k = "py" THEN "pytile" ELSE "handle", <<obj[o].hs[i]>>, "-",
                   [k |-> "view", from |-> o, i |-> i - 1]) /\ UNCHANGED has
Local == \E s \in One({s \in Spots : obj[s[1]].k \notin {"py", "pytile"}}) : \E m \in {Pick({"R", "W", "RW"})} :
           /\ IF m = "R" THEN Readable(At(s)) ELSE Free(At(s)) /\ (m = "W" \/ has[At(s)])
           /\ Share("local", <<At(s)>>, m, [k |-> "local", from |-> s[1], i |-> s[2] - 1, m |-> m])
           /\ has' = [has EXCEPT ![At(s)] = TRUE]
Rel == \E o \in One({o \in Locals : obj[o].acq # "-"}) :
         /\ obj' = [obj EXCEPT ![o].acq = "-"]
         /\ Put([k |-> "release", o |-> o]) /\ UNCHANGED <<has, no, nh, done>>
\* tasks: accesses of local users must not be waited for by the program itself
CanW(s) == Free(At(s)) /\ obj[s[1]].k \notin {"py", "pytile"}
CanR(s) == Readable(At(s)) /\ obj[s[1]].k \notin {"py", "pytile"}
Op1 == \E s \in One({s \in Spots : CanW(s)}) : \E f \in {Pick({"clear", "fill", "scal_inplace"})} :
         /\ (f = "scal_inplace" => has[At(s)])
         /\ has' = [has EXCEPT ![At(s)] = TRUE]
         /\ Put([k |-> "op", f |-> f, a |-> <<s>>]) /\ UNCHANGED <<obj, no, nh, done>>
Op2 == \E s \in One({s \in Spots : CanR(s)}), t \in One({s \in Spots : CanW(s)}) : \E f \in {Pick({"copy", "add"})} :
         /\ At(s) # At(t) /\ (f = "add" => has[At(t)])
         /\ has' = [has EXCEPT ![At(t)] = TRUE]
         /\ Put([k |-> "op", f |-> f, a |-> <<s, t>>]) /\ UNCHANGED <<obj, no, nh, done>>
PyFree(o) == \A i \in 1..Len(obj[o].hs) : Free(obj[o].hs[i])
PyHas(o) == \A i \in 1..Len(obj[o].hs) : has[obj[o].hs[i]]
Pys == {o \in Data : obj[o].k = "py"}
PyOp == \E o \in One(Pys) : \E f \in {Pick({"clear", "fill", "scal_inplace", "randn", "copy", "gather", "scatter", "inter", "set"})} :
          /\ PyFree(o)
          /\ IF f \in {"copy", "gather", "scatter", "inter"}
             THEN \E p \in One(Pys) : /\ p # o /\ PyFree(p) /\ PyHas(p)
                    /\ (f # "inter" => obj[p].w = obj[o].w)
                    /\ (f = "copy" => Len(obj[p].hs) = Len(obj[o].hs))
                    /\ (f = "gather" => Len(obj[o].hs) = 1) /\ (f = "scatter" => Len(obj[p].hs) = 1)
                    /\ (f = "inter" => PyHas(o))
                    /\ Put([k |-> "pyop", f |-> f, o |-> o, p |-> p])
             ELSE /\ (f = "scal_inplace" => PyHas(o))
                  /\ Put([k |-> "pyop", f |-> f, o |-> o, p |-> -1])
          /\ has' = [h \in DOMAIN has |-> has[h] \/ \E i \in 1..Len(obj[o].hs) : obj[o].hs[i] = h]
          /\ UNCHANGED <<obj, no, nh, done>>
Read == \E s \in One({s \in Spots : Readable(At(s)) /\ Free(At(s)) /\ obj[s[1]].k # "pytile" /\ (obj[s[1]].k = "py" => PyFree(s[1]) /\ PyHas(s[1]))}) :
          Put([k |-> "read", o |-> s[1], i |-> s[2] - 1]) /\ UNCHANGED <<obj, has, no, nh, done>>
\* waiting for everything while something is held would be the program's own deadlock
NoHold == \A o \in Locals : obj[o].acq = "-"
Wait == NoHold /\ Put([k |-> "wait"]) /\ UNCHANGED <<obj, has, no, nh, done>>
Drop == \E o \in One(Objs) : \E w \in {Pick({"unreg", "del", "unregdel"})} :
          /\ obj' = [p \in Objs \ {o} |-> obj[p]]
          /\ Put([k |-> "drop", o |-> o, w |-> w]) /\ UNCHANGED <<has, no, nh, done>>
Step == \/ New \/ CopyObj \/ View \/ Local \/ Rel \/ Op1 \/ Op2 \/ PyOp \/ Read \/ Wait \/ Drop \/ Bad

Init == obj = <<>> /\ has = <<>> /\ no = 1 /\ nh = 1 /\ log = <<>> /\ done = FALSE
Stop == /\ Len(log) >= Depth /\ ~done /\ done' = TRUE
        /\ PrintT(<<"BEH", ToJson([log |-> log])>>)
        /\ UNCHANGED <<obj, has, no, nh, log>>
Next == (Len(log) < Depth /\ Step) \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
