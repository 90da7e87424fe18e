----------------------------- MODULE Commands -------------------------------
(* The command language of the simulator.  A command is the sequence of its  *)
(* words, each [s: the word, i: whether it is a number, v: the number].      *)
(* Results(z, w) is the set of what a command may do in the state z of the   *)
(* simulator [d: databank, reg: hook point -> functions, verb: verbosity]:   *)
(*   k    "done", "error", "unknown" or "bye"                                *)
(*   t    the result as text, any: it may be another text                    *)
(*   v    the values in it                                                   *)
(*   z    the state after it                                                 *)
EXTENDS Databank

Done(z, t, v) == [k |-> "done", t |-> t, any |-> FALSE, v |-> v, z |-> z]
DoneAny(z) == [k |-> "done", t |-> "", any |-> TRUE, v |-> <<>>, z |-> z]
Failed(z) == [k |-> "error", t |-> "", any |-> TRUE, v |-> <<>>, z |-> z]

RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1]
            ELSE LET h == Len(ws) \div 2 IN Join(SubSeq(ws, 1, h)) \o " " \o Join(SubSeq(ws, h + 1, Len(ws)))
Text(vs) == Join([i \in DOMAIN vs |-> ToString(vs[i])])

Known == {"add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block", "remove_all_blocks",
          "set_values", "get_values", "install_hook", "uninstall_hook", "set_verbose", "echo", "fail", "slow"}
\* words needed, and which have to be numbers
Need(c) == CASE c \in {"add_slave", "has_slave", "remove_slave", "remove_all_blocks", "set_verbose", "uninstall_hook"} -> 2
             [] c \in {"remove_block", "install_hook"} -> 3
             [] c = "add_block" -> 6 [] c = "set_values" -> 4 [] c = "get_values" -> 5 [] OTHER -> 1
Numbers(c, n) == CASE c \in {"add_slave", "has_slave", "remove_slave", "remove_block", "remove_all_blocks", "set_verbose"} -> {2}
                   [] c = "add_block" -> {2, 4, 5, 6} [] c = "set_values" -> {2} \cup 4..n [] c = "get_values" -> {2, 4, 5} [] OTHER -> {}
\* further words have no meaning
Open == {"set_values", "echo", "slow", "fail", "uninstall_hook"}

OnSlave(z, u, r, t, v) ==
    IF r.k = "ok" THEN {Done([z EXCEPT !.d.objs[z.d.map[u]] = r.s], t, v)} ELSE {Failed(z)}
Plain == <<1, 2, 3, 4>>
Del(s, f) == LET k == CHOOSE i \in DOMAIN s : s[i] = f /\ \A j \in 1..(i - 1) : s[j] # f
             IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
RegOf(z, h) == IF h \in DOMAIN z.reg THEN z.reg[h] ELSE <<>>
PutReg(z, h, s) == [z EXCEPT !.reg = (h :> s) @@ z.reg]

Right(z, w, declared) ==
    LET c == w[1].s  u == w[2].v  m == w[3].s  d == z.d
        sl == d.objs[d.map[u]]  known == u \in DOMAIN d.map
        vals == [i \in 1..(Len(w) - 4) |-> w[i + 4].v]
    IN CASE c = "add_slave" -> LET r == AddSlave(d, u, FALSE, Plain) IN
                               IF r.k = "ok" THEN {Done([z EXCEPT !.d = r.d], ToString(u), <<u>>)} ELSE {Failed(z)}
         [] c = "has_slave" -> {Done(z, IF known THEN "1" ELSE "0", <<IF known THEN 1 ELSE 0>>)}
         [] c = "remove_slave" -> LET r == RemoveSlave(d, u) IN IF r.k = "ok" THEN {DoneAny([z EXCEPT !.d = r.d])} ELSE {Failed(z)}
         [] c = "remove_all_slaves" -> {DoneAny([z EXCEPT !.d = ClearSlaves(d)])}
         [] c = "set_verbose" -> {Done([z EXCEPT !.verb = (u # 0)], ToString(u), <<u>>)}
         [] c \in {"add_block", "remove_block", "remove_all_blocks", "set_values", "get_values"} /\ ~known -> {Failed(z)}
         [] c = "add_block" -> OnSlave(z, u, ApiAdd(sl, m, w[4].v, w[5].v, w[6].v), m, <<>>)
         [] c = "remove_block" -> {[r EXCEPT !.any = TRUE] : r \in OnSlave(z, u, ApiRemove(sl, m), "", <<>>)}
         [] c = "remove_all_blocks" -> {[r EXCEPT !.any = TRUE] : r \in OnSlave(z, u, ApiRemoveAll(sl), "", <<>>)}
         [] c = "set_values" -> OnSlave(z, u, ApiSet(sl, m, w[4].v, vals), Text(vals), vals)
         [] c = "get_values" -> LET r == ApiGet(sl, m, w[4].v, w[5].v) IN OnSlave(z, u, r, Text(r.v), r.v)
         [] c = "install_hook" -> IF w[3].s \in declared THEN {DoneAny(PutReg(z, w[2].s, Append(RegOf(z, w[2].s), w[3].s)))}
                                  ELSE {Failed(z)}
         [] c = "uninstall_hook" ->
              LET h == w[2].s IN
              IF Len(w) > 2 /\ w[3].s # ""
              THEN IF w[3].s \notin declared THEN {Failed(z)}
                   ELSE IF \E i \in DOMAIN RegOf(z, h) : RegOf(z, h)[i] = w[3].s
                        THEN {DoneAny(PutReg(z, h, Del(RegOf(z, h), w[3].s)))}
                        ELSE {DoneAny(z), Failed(z)}
              ELSE IF RegOf(z, h) = <<>> THEN {DoneAny(z), Failed(z)} ELSE {DoneAny(PutReg(z, h, <<>>))}
         [] c = "echo" -> {Done(z, Join([i \in 1..(Len(w) - 1) |-> w[i + 1].s]), <<>>)}
         [] c = "slow" -> {Done(z, Join([i \in 1..(Len(w) - 2) |-> w[i + 2].s]), <<>>)}
         [] OTHER -> {Failed(z)}

Results(z, w, declared) ==
    LET c == w[1].s IN
    IF c = "quit" THEN {[k |-> "bye", t |-> "", any |-> TRUE, v |-> <<>>, z |-> z]}
    ELSE IF c \notin Known THEN {[k |-> "unknown", t |-> "", any |-> TRUE, v |-> <<>>, z |-> z]}
    ELSE IF Len(w) < Need(c) \/ \E i \in Numbers(c, Len(w)) : ~w[i].i THEN {Failed(z)}
    ELSE Right(z, w, declared) \cup (IF Len(w) > Need(c) /\ c \notin Open THEN {Failed(z)} ELSE {})
=============================================================================
