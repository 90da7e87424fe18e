----------------------------- MODULE HookLocks ------------------------------
(* The design of the locks around the data and the hooks.  Every call is a   *)
(* program of taking and releasing locks with hook points in between; the    *)
(* functions installed at the hook points make calls themselves.             *)
(*   Shared     all slaves share one lock (otherwise one lock each)          *)
(*   Snapshot   the registry of hooks is not locked while functions run      *)
(*   Copies     a broadcast does not hold the databank while slaves work     *)
(*   Reentrant  a thread may take a lock again which it has                  *)
(* Masters have one lock for the exchanges of all of them; there are hook    *)
(* points in an exchange, and a function may ask another master.             *)
(* Every scenario (what the threads do, what the functions do) is printed:   *)
(* the driver plays it with the real code.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W, Depth, Shared, Snapshot, Copies, Reentrant, Calls, Nested
VARIABLES code,     \* what each thread has still to do
          depth,    \* hook functions each thread is in
          own, cnt, \* holder of each lock (0: none) and how many times
          scn       \* the scenario
vars == <<code, depth, own, cnt, scn>>

Slaves == {1, 2}
Lock(s) == IF Shared THEN "data" ELSE IF s = 1 THEN "data1" ELSE "data2"
Locks == {"data", "data1", "data2", "bank", "hooks", "masters"}

A(x) == <<"acq", x, 0>>
R(x) == <<"rel", x, 0>>
Hook(s) == <<"hook", "", s>>
Body(s) == <<A(Lock(s)), Hook(s), Hook(s), R(Lock(s))>>         \* a request on slave s: two hook points, then the writes
Prog(c) == CASE c[1] = "req"   -> <<Hook(c[2]), A("bank"), R("bank")>> \o Body(c[2])
             [] c[1] = "set"   -> <<A(Lock(c[2])), Hook(c[2]), R(Lock(c[2]))>>
             [] c[1] = "get"   -> <<A(Lock(c[2])), R(Lock(c[2]))>>
             [] c[1] = "bcast" -> IF Copies THEN <<A("bank"), R("bank")>> \o Body(1) \o Body(2)
                                  ELSE <<A("bank")>> \o Body(1) \o Body(2) \o <<R("bank")>>
             [] c[1] = "bank"  -> <<A("bank"), R("bank")>>
             [] c[1] = "hooks" -> <<A("hooks"), R("hooks")>>
             [] c[1] = "exec"  -> <<A("masters"), Hook(1), Hook(2), R("masters")>>
             [] OTHER -> <<>>
\* what a hook function which is called for slave s does
Act(n, s) == CASE n = "set own" -> <<"set", s>> [] n = "set other" -> <<"set", 3 - s>>
               [] n = "get own" -> <<"get", s>> [] n = "get other" -> <<"get", 3 - s>>
               [] n = "bank" -> <<"bank", 0>> [] n = "hooks" -> <<"hooks", 0>>
               [] n = "exec" -> <<"exec", 0>> [] OTHER -> <<"none", 0>>

TopCalls == {<<n, s>> : n \in {"req", "set", "get"} \cap Calls, s \in Slaves} \cup {<<n, 0>> : n \in {"bcast", "bank", "hooks", "exec"} \cap Calls}
Init == /\ \E f \in [W -> TopCalls], n \in Nested : scn = [f |-> f, n |-> n] /\ code = [w \in W |-> Prog(f[w])]
        /\ depth = [w \in W |-> 0] /\ own = [x \in Locks |-> 0] /\ cnt = [x \in Locks |-> 0]
        /\ PrintT(<<"SCN", ToJson(scn)>>)

Step(w) == code[w][1]
Acquire(w) == /\ code[w] # <<>> /\ Step(w)[1] = "acq"
              /\ LET x == Step(w)[2] IN
                 /\ own[x] = 0 \/ (Reentrant /\ own[x] = w)
                 /\ own' = [own EXCEPT ![x] = w] /\ cnt' = [cnt EXCEPT ![x] = @ + 1]
              /\ code' = [code EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<depth, scn>>
Release(w) == /\ code[w] # <<>> /\ Step(w)[1] = "rel"
              /\ LET x == Step(w)[2] IN
                 cnt' = [cnt EXCEPT ![x] = @ - 1] /\ own' = [own EXCEPT ![x] = IF cnt[x] = 1 THEN 0 ELSE @]
              /\ code' = [code EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<depth, scn>>
\* a hook point: the registry is looked up, then the function does its call
Point(w) == /\ code[w] # <<>> /\ Step(w)[1] = "hook"
            /\ LET act == IF depth[w] < Depth THEN <<<<"in", "", 0>>>> \o Prog(Act(scn.n, Step(w)[3])) \o <<<<"out", "", 0>>>> ELSE <<>> IN
               code' = [code EXCEPT ![w] = (IF Snapshot THEN <<A("hooks"), R("hooks")>> \o act
                                            ELSE <<A("hooks")>> \o act \o <<R("hooks")>>) \o Tail(@)]
            /\ UNCHANGED <<depth, own, cnt, scn>>
Enter(w) == /\ code[w] # <<>> /\ Step(w)[1] = "in" /\ depth' = [depth EXCEPT ![w] = @ + 1]
            /\ code' = [code EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<own, cnt, scn>>
Leave(w) == /\ code[w] # <<>> /\ Step(w)[1] = "out" /\ depth' = [depth EXCEPT ![w] = @ - 1]
            /\ code' = [code EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<own, cnt, scn>>
Do(w) == Acquire(w) \/ Release(w) \/ Point(w) \/ Enter(w) \/ Leave(w)
Next == \E w \in W : Do(w)
Spec == Init /\ [][Next]_vars /\ \A w \in W : SF_vars(Do(w))

NoDeadlock == (\E w \in W : code[w] # <<>>) => ENABLED Next
AllFree == (\A w \in W : code[w] = <<>>) => \A x \in Locks : own[x] = 0
Finish == <>(\A w \in W : code[w] = <<>>)
=============================================================================
