---------------------------- MODULE TraceCalls ------------------------------
(* Calls of several threads and the hook functions within: every call which  *)
(* begins ends, properly nested, a request is answered by a running server,  *)
(* hook functions are called by threads which are within a call, and nobody  *)
(* is left waiting.                                                          *)
(* Events: call(w, n), ret(w, n, ok), in(w, n), out(w, n) a hook function    *)
(* begins and ends, end(s).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, st, dead
vars == <<t, l, st, dead>>

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
\* threads 1.. are of the application, 0 and below are of servers, which are always serving
Stack(w) == IF w \in DOMAIN st THEN st[w] ELSE <<>>
Busy == {w \in DOMAIN st : st[w] # <<>>}
Top(w) == Stack(w)[Len(Stack(w))]

Verdict ==
    CASE E.e = "call" -> ""
      [] E.e = "in" -> IF E.w > 0 /\ Stack(E.w) = <<>> THEN "C19:hook" ELSE ""
      [] E.e \in {"ret", "out"} ->
           IF Stack(E.w) = <<>> \/ Top(E.w) # E.n THEN "C19:nesting"
           ELSE IF E.e = "ret" /\ ~E.ok THEN "C19:unanswered" ELSE ""
      [] E.e = "end" -> IF E.s = "deadlock" THEN "C19:deadlock"
                        ELSE IF E.s # "ok" THEN "END:" \o E.s
                        ELSE IF Busy # {} THEN "C19:incomplete" ELSE ""
      [] OTHER -> "C19:event"
Push(w, n) == st' = (w :> Append(Stack(w), n)) @@ st
Observe == /\ Live /\ Verdict = "" /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
           /\ CASE E.e \in {"call", "in"} -> Push(E.w, E.n)
                [] E.e \in {"ret", "out"} -> st' = (E.w :> SubSeq(Stack(E.w), 1, Len(Stack(E.w)) - 1)) @@ st
                [] OTHER -> UNCHANGED st
           /\ (l = Len(Ev)) => PrintT(<<"ACC", ToString(t)>>)
Reject == /\ Live /\ Verdict # ""
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, st>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = [w \in {} |-> <<>>] /\ dead = FALSE
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
