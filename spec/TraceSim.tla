------------------------------ MODULE TraceSim ------------------------------
(* Checks what a simulator answers to the console, to its queue and to RPC   *)
(* clients, and what its commands do.  Every command is carried out at one   *)
(* moment between its sending and its answer.                                *)
(* Events: send(w, c) the command c (words) is sent by w, ans(w, k, c, t) a  *)
(* line comes back to w, ret(w, k, t, v) a method of SimulatorRpcClient      *)
(* ends, noans(w), dump(d), fire(h, f) the functions called at a hook point, *)
(* verb(v), stopped(ok), end(s).                                             *)
EXTENDS Commands, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead, z, pend, over
vars == <<t, l, dead, z, pend, over>>

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
Declared == {Traces[t].declared[i] : i \in DOMAIN Traces[t].declared}
NoRes == [k |-> "", t |-> "", any |-> FALSE, v |-> <<>>]
Is(w) == w \in DOMAIN pend

\* a command is carried out; only when it makes a difference for what follows
Waiting == {w \in DOMAIN pend : pend[w].r.k = ""}
Wanted == E.e \in {"ans", "ret", "noans", "dump", "fire", "verb", "stopped", "end"}
Exec == /\ Live /\ Wanted /\ ~over
        /\ \E w \in Waiting : \E r \in Results(z, pend[w].c, Declared) :
             /\ pend' = [pend EXCEPT ![w].r = [k |-> r.k, t |-> r.t, any |-> r.any, v |-> r.v]]
             /\ z' = r.z /\ over' = (r.k = "bye")
        /\ UNCHANGED <<t, l, dead>>

\* what is in the blocks, by name and by table
Seen == 0..44
Named(d) == UNION {LET s == d.objs[d.map[u]] IN
                   UNION {LET k == s.blk[m] IN {<<u, m, a, k.v[a - k.a + 1]>> : a \in (k.a..(k.a + Len(k.v) - 1)) \cap Seen} : m \in Names(s)}
                   : u \in DOMAIN d.map}
Tabled(d) == UNION {LET s == d.objs[d.map[u]] IN
                    UNION {LET k == s.blk[m] IN {<<u, k.c, a>> : a \in (k.a..(k.a + Len(k.v) - 1)) \cap Seen} : m \in Names(s)}
                    : u \in DOMAIN d.map}
SetOf(q) == {q[i] : i \in DOMAIN q}

Answered(r) == CASE r.k = "done" -> E.k = "done" /\ E.c = pend[E.w].c[1].s /\ (r.any \/ E.t = r.t)
                 [] r.k = "error" -> E.k = "error" /\ E.c = pend[E.w].c[1].s
                 [] r.k = "unknown" -> E.k = "unknown" /\ E.c = pend[E.w].c[1].s
                 [] r.k = "bye" -> E.k = "bye"
                 [] OTHER -> FALSE
\* what a method of the client returns: text, values, none (not E.k = "exc")
Returned(r) == IF r.k # "done" THEN E.k = "exc"
               ELSE LET c == pend[E.w].c[1].s IN
                    CASE c = "get_values" -> E.k = "values" /\ E.v = r.v
                      [] c = "has_slave" -> E.k = "bool" /\ E.v = r.v
                      [] c \in {"add_slave", "set_values"} -> (E.k = "text" /\ E.t = r.t) \/ (E.k = "values" /\ E.v = r.v)
                      [] c = "add_block" -> E.k = "text" /\ E.t = r.t
                      [] OTHER -> E.k # "exc"
Clause(n) == IF n = 1 THEN "C20:" ELSE "C21:"
Alone == Traces[t].alone

Verdict ==
    CASE E.e = "send" -> IF Is(E.w) THEN "event" ELSE ""
      [] E.e = "ans" -> IF Is(E.w) /\ Answered(pend[E.w].r) THEN "" ELSE Clause(IF Alone THEN 1 ELSE 2) \o "answer"
      [] E.e = "ret" -> IF Is(E.w) /\ Returned(pend[E.w].r) THEN "" ELSE "C21:result"
      [] E.e = "noans" -> IF over /\ pend[E.w].r.k = "" THEN "" ELSE Clause(IF Alone THEN 1 ELSE 2) \o "noanswer"
      [] E.e = "more" -> Clause(IF Alone THEN 1 ELSE 2) \o "another answer"
      [] E.e = "dump" -> IF /\ SetOf(E.u) = DOMAIN z.d.map
                               /\ {<<x[1], x[2], x[3], x[4]>> : x \in SetOf(E.n)} = Named(z.d)
                               /\ {<<x[1], x[2], x[3]>> : x \in SetOf(E.b)} = Tabled(z.d) THEN "" ELSE "C20:effect"
      [] E.e = "fire" -> IF E.f = RegOf(z, E.h) THEN "" ELSE "C20:hooks"
      [] E.e = "verb" -> IF \A i \in DOMAIN E.v : E.v[i] = z.verb THEN "" ELSE "C20:verbose"
      \* the loop of the simulator has ended, or it still goes on
      [] E.e = "stopped" -> IF E.ok = over THEN "" ELSE "C20:loop"
      [] E.e = "end" -> IF E.s = "ok" THEN "" ELSE "END:" \o E.s
      [] OTHER -> "event"
Observe == /\ Live /\ Verdict = "" /\ l' = l + 1 /\ UNCHANGED <<t, dead, z, over>>
           /\ pend' = (CASE E.e = "send" -> (E.w :> [c |-> E.c, r |-> NoRes]) @@ pend
                         [] E.e \in {"ans", "ret", "noans"} -> [w \in DOMAIN pend \ {E.w} |-> pend[w]]
                         [] OTHER -> pend)
           /\ (l = Len(Ev)) => PrintT(<<"ACC", ToString(t)>>)
\* a line which does not come from the right place: reported unless another order explains it
Reject == /\ Live /\ Verdict # "" /\ (over \/ Waiting = {} \/ ~Wanted)
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, z, pend, over>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ pend = [w \in {} |-> 0] /\ over = FALSE
        /\ z = [d |-> NoSlaves, reg |-> [h \in {} |-> <<>>], verb |-> FALSE]
Next == Exec \/ Observe \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
