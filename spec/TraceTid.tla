------------------------------ MODULE TraceTid ------------------------------
(* Checks the transaction ids of requests built by the code.                 *)
(*   order  ids of requests built one after the other                        *)
(*   window at most M requests, some by several threads at once: `iv' holds  *)
(*          ids built one after the other, as pairs (first, how many), and   *)
(*          `ids' those of the threads                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
M == 65536
VARIABLES t, verdict
vars == <<t, verdict>>

Order(s) ==
    IF \E i \in DOMAIN s : s[i] \notin 0..(M - 1) THEN "C16:range"
    ELSE LET first == {s[i] : i \in 1..(IF Len(s) < M THEN Len(s) ELSE M)}
         IN  IF Cardinality(first) < (IF Len(s) < M THEN Len(s) ELSE M) THEN "C16:repeated"
             \* every window of M ids holds them all, so the next window only moves the first one to its end
             ELSE IF \E i \in 1..(Len(s) - M) : s[i + M] # s[i] THEN "C16:repeated later" ELSE ""
Window(iv, ids) ==
    LET apart(p, q) == p[1] + p[2] <= q[1] \/ q[1] + q[2] <= p[1]
    IN  IF (\E i \in DOMAIN ids : ids[i] \notin 0..(M - 1)) \/ (\E k \in DOMAIN iv : iv[k][1] < 0 \/ iv[k][1] + iv[k][2] > M)
        THEN "C16:range"
        ELSE IF \/ \E k, m \in DOMAIN iv : k < m /\ ~apart(iv[k], iv[m])
                \/ \E i, j \in DOMAIN ids : i < j /\ ids[i] = ids[j]
                \/ \E i \in DOMAIN ids : \E k \in DOMAIN iv : iv[k][1] <= ids[i] /\ ids[i] < iv[k][1] + iv[k][2]
             THEN "C16:repeated" ELSE ""
Verdict == LET r == Traces[t]
           IN  IF r.end # "ok" THEN "END:" \o r.end
               ELSE IF r.kind = "order" THEN Order(r.ids) ELSE Window(r.iv, r.ids)

Init == t \in 1..Len(Traces) /\ verdict = "?"
Next == /\ verdict = "?" /\ verdict' = Verdict /\ t' = t
        /\ IF verdict' = "" THEN PrintT(<<"ACC", ToString(t)>>)
           ELSE PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> verdict'])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
