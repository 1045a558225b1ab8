----------------------------- MODULE GenMatching ----------------------------
(* The behaviours of MCMatching, to be replayed into the code: sibling lists, *)
(* with all rule lists and the groups that the specification demands.  Every  *)
(* state is one list of siblings; it prints                                   *)
(*   "GEN " [L |-> siblings, X |-> << groups per rule list >>]                *)
(* where the rule lists are those of RuleSeq, printed once as "RULES ".       *)
(* A group is a sequence of <<rule index, position>>.                         *)
EXTENDS MCMatching, Json
RuleSeq == SetToSeq({[j \in 1..k |-> <<c[j][1], c[j][2], c[j][3]>>] : k \in 1..MaxRules, c \in
                        UNION {[1..m -> RuleTags \X BOOLEAN \X BOOLEAN] : m \in {MaxRules}}})
ChainOf(q) == [j \in 1..Len(q) |-> MkRule(j, q[j][1], q[j][2], q[j][3])]
GenInit == R = <<>> /\ d = DocOf(<<>>) /\ PrintT("RULES " \o ToJson(RuleSeq))
GenSpec == GenInit /\ [][Next]_vars
Brief(gs) == [x \in 1..Len(gs) |-> [y \in 1..Len(gs[x]) |-> <<Idx(gs[x][y]), Pos(gs[x][y])>>]]
Emit == PrintT("GEN " \o ToJson([L |-> [i \in 1..Len(L) |-> IF d[L[i]].k = "t" THEN "#" ELSE d[L[i]].n],
          X |-> [q \in 1..Len(RuleSeq) |-> Brief(Groups(d, ChainOf(RuleSeq[q]), L, 1))]]))
=============================================================================
