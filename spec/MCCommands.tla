----------------------------- MODULE MCCommands -----------------------------
(* Every state of the simulator which a few commands reach from the start.   *)
(* Each state is printed with a path to it, with the commands which change   *)
(* nothing there and those which do; the driver gives all of them to the     *)
(* simulator.                                                                *)
EXTENDS Commands, Json

CONSTANTS Depth
VARIABLES z, path
vars == <<z, path>>

N(v) == [s |-> ToString(v), i |-> TRUE, v |-> v]
S(w) == [s |-> w, i |-> FALSE, v |-> 0]
Facts == {"f1", "f2"}
Cmds == {<<S("add_slave"), N(1)>>, <<S("add_slave"), N(2)>>, <<S("has_slave"), N(1)>>, <<S("remove_slave"), N(1)>>,
         <<S("remove_all_slaves")>>,
         <<S("add_block"), N(1), S("a"), N(3), N(0), N(2)>>, <<S("add_block"), N(1), S("b"), N(1), N(1), N(2)>>,
         <<S("add_block"), N(1), S("b"), N(3), N(1), N(2)>>, <<S("add_block"), N(2), S("a"), N(4), N(0), N(1)>>,
         <<S("remove_block"), N(1), S("a")>>, <<S("remove_all_blocks"), N(1)>>,
         <<S("set_values"), N(1), S("a"), N(0), N(7), N(8)>>, <<S("set_values"), N(1), S("b"), N(2), N(1)>>,
         <<S("set_values"), N(1), S("a"), N(0)>>,
         <<S("get_values"), N(1), S("a"), N(0), N(2)>>, <<S("get_values"), N(1), S("b"), N(1), N(2)>>,
         <<S("install_hook"), S("own.point"), S("f1")>>, <<S("install_hook"), S("own.point"), S("f2")>>,
         <<S("uninstall_hook"), S("own.point")>>, <<S("uninstall_hook"), S("own.point"), S("f1")>>,
         <<S("set_verbose"), N(1)>>, <<S("set_verbose"), N(0)>>}
\* commands which are never right
Odd == {<<S("add_slave")>>, <<S("add_slave"), S("x")>>, <<S("add_slave"), N(0)>>, <<S("add_slave"), N(256)>>, <<S("has_slave")>>,
        <<S("remove_slave"), S("")>>, <<S("add_block"), N(1), S("c"), N(5), N(0), N(1)>>, <<S("add_block"), N(1), S("c"), N(3), N(4)>>,
        <<S("add_block"), N(1), S("c"), N(3), S("x"), N(1)>>, <<S("add_block"), N(1), S("c"), N(3), N(4), N(0)>>,
        <<S("remove_block"), N(1)>>, <<S("remove_all_blocks")>>, <<S("remove_block"), N(1), S("nob")>>,
        <<S("set_values"), N(1), S("a"), N(1), N(1), N(2)>>, <<S("set_values"), N(1), S("a"), N(1), S("x")>>,
        <<S("get_values"), N(1), S("a"), N(0)>>, <<S("get_values"), N(1), S("a"), N(5), N(3)>>,
        <<S("install_hook"), S("own.point")>>, <<S("install_hook"), S("own.point"), S("nof")>>, <<S("set_verbose"), S("x")>>,
        <<S("uninstall_hook"), S("own.point"), S("nof")>>, <<S("uninstall_hook")>>, <<S("set_verbose")>>,
        <<S("Quit")>>, <<S("")>>, <<S("help"), S("me")>>, <<S("add_slav"), N(1)>>, <<S("fail"), S("key")>>, <<S("fail"), S("odd")>>,
        <<S("echo"), S("one"), S("two")>>}
All == Cmds \cup Odd
Listed(d) == UNION {LET s == d.objs[d.map[u]] IN
                    {<<u, m, s.blk[m].c, s.blk[m].a, s.blk[m].v>> : m \in Names(s)} : u \in DOMAIN d.map}
Seen(x) == <<DOMAIN x.d.map, Listed(x.d), RegOf(x, "own.point"), x.verb>>
SimView == Seen(z)

Init == z = [d |-> NoSlaves, reg |-> [h \in {} |-> <<>>], verb |-> FALSE] /\ path = <<>>
Quiet(w) == \A r \in Results(z, w, Facts) : Seen(r.z) = Seen(z)
Step(w) == /\ Len(path) < Depth /\ ~Quiet(w)
           /\ \E r \in Results(z, w, Facts) : z' = r.z
           /\ path' = Append(path, w)
Next == \E w \in Cmds : Step(w)
Spec == Init /\ [][Next]_vars

\* commands which are refused change nothing, one answer kind for each command but for the hooks
Refused == \A w \in All : \A r \in Results(z, w, Facts) : r.k \in {"error", "unknown"} => r.z = z
Determined == \A w \in All : w[1].s # "uninstall_hook" => Cardinality({r.k : r \in Results(z, w, Facts)}) = 1
Wrong == \A w \in Odd : w[1].s \notin {"echo"} => \A r \in Results(z, w, Facts) : r.k \in {"error", "unknown"}
HooksOnly == \A i \in DOMAIN RegOf(z, "own.point") : RegOf(z, "own.point")[i] \in Facts
Words(w) == [i \in DOMAIN w |-> w[i].s]
Export == PrintT(<<"STATE", ToJson([path |-> [i \in DOMAIN path |-> Words(path[i])],
                                    quiet |-> {Words(w) : w \in {x \in All : Quiet(x)}},
                                    loud |-> {Words(w) : w \in {x \in All : ~Quiet(x)}}])>>)
=============================================================================
