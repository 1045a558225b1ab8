------------------------------- MODULE GenTree ------------------------------
(* The behaviours of MCTree, to be replayed into the code: every small tree,  *)
(* with all templates (a rule with child rules and nested rules), the groups  *)
(* that the specification demands and the number of searches begun.           *)
(*   "RULES " templates: [t, f, ch |-> <<[i, t, f]>>, ne |-> <<[i, t, f]>>]   *)
(*   "GEN " [P |-> parents, T |-> kinds, X |-> <<[g |-> groups, c |-> searches]>>] *)
(* A group is a sequence of <<rule id, node>>.                                *)
EXTENDS MCTree, Json
Raw(base, mx) == UNION {{[j \in 1..k |-> [i |-> base + j, t |-> c[j][1], f |-> c[j][2]]] :
                             c \in [1..k -> LeafTags \X LeafFlags]} : k \in 0..mx}
RuleSeq == SetToSeq({[t |-> t, f |-> f, ch |-> ch, ne |-> ne] :
             t \in TopTags, f \in TopFlags, ch \in Raw(0, MaxChild), ne \in Raw(3, MaxNested)})
Leaves(q) == [j \in 1..Len(q) |-> Mk(q[j].i, q[j].t, q[j].f, <<>>, <<>>)]
ChainOf(q) == <<Mk(0, q.t, q.f, Leaves(q.ch), IF q.ne = <<>> THEN <<>> ELSE <<Leaves(q.ne)>>)>>
GenInit == R = <<>> /\ d = <<Node("e", 0, B("a"))>> /\ PrintT("RULES " \o ToJson(RuleSeq))
GenSpec == GenInit /\ [][Next]_vars
Brief(gs) == [x \in 1..Len(gs) |-> [y \in 1..Len(gs[x]) |-> <<Id(gs[x][y]), gs[x][y][2]>>]]
Emit == PrintT("GEN " \o ToJson([P |-> [n \in 1..Len(d) |-> d[n].p],
          T |-> [n \in 1..Len(d) |-> IF d[n].k = "t" THEN "#" ELSE d[n].n],
          X |-> [q \in 1..Len(RuleSeq) |-> LET t == OTop(d, ChainOf(RuleSeq[q])) IN [g |-> Brief(t.gs), c |-> t.c]]]))
=============================================================================
