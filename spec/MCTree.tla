------------------------------- MODULE MCTree ------------------------------
(* Exhaustive check of rules with children and nested rules over all small    *)
(* document trees: scope, coverage, and the role of optional rules below.     *)
EXTENDS MatchingOps
CONSTANTS MaxNodes, NodeTags, MaxChild, MaxNested, TopTags, LeafTags, TopFlags, LeafFlags
VARIABLES R, d
vars == <<R, d>>

Cap(i) == <<[c |-> "fn", f |-> "text", to |-> <<48 + i>>, ps |-> <<>>]>>
Flag(f) == CASE f = "m" -> <<FALSE, FALSE>> [] f = "o" -> <<TRUE, FALSE>>
             [] f = "g" -> <<FALSE, TRUE>> [] f = "og" -> <<TRUE, TRUE>>
Mk(i, t, f, ch, ne) == Rule(B(t), <<>>, Flag(f)[1], Flag(f)[2], <<>>, Cap(i), ch, ne)
Lists(base, mx) == UNION {{[j \in 1..k |-> Mk(base + j, c[j][1], c[j][2], <<>>, <<>>)] :
                             c \in [1..k -> LeafTags \X LeafFlags]} : k \in 0..mx}
\* top rule with child rules (ids 1..) and one brace of nested rules (ids 4..)
Tops == {Mk(0, t, f, ch, IF ne = <<>> THEN <<>> ELSE <<ne>>) :
           t \in TopTags, f \in TopFlags, ch \in Lists(0, MaxChild), ne \in Lists(3, MaxNested)}

Node(k, p, n) == [k |-> k, p |-> p, ch |-> <<>>, n |-> n, u |-> FALSE, at |-> <<>>, x |-> <<>>]
RECURSIVE Spine(_, _)
Spine(doc, n) == {n} \union (IF doc[n].p = 0 THEN {} ELSE Spine(doc, doc[n].p))

Init == R \in {<<t>> : t \in Tops} /\ d = <<Node("e", 0, B("a"))>>
\* the next node in document order is added below a node of the right-most branch
Next == /\ Len(d) < MaxNodes
        /\ \E p \in Spine(d, Len(d)) : \E t \in NodeTags :
             /\ d[p].k = "e"
             /\ d' = Append([d EXCEPT ![p].ch = Append(@, Len(d) + 1)],
                            IF t = "#" THEN Node("t", p, <<>>) ELSE Node("e", p, B(t)))
        /\ UNCHANGED R
Spec == Init /\ [][Next]_vars

T == R[1]
GS == TopGroups(d, R)
Id(p) == p[1].cs[1].to[1] - 48
TypeOK == WellFormed(d)
SameGroups == OTop(d, R).gs = GS

Below(n) == {m \in 1..Len(d) : n \in Ancestors(d, m)}
\* C04: children are direct, nested rules are below, and both belong to an
\* element of the rule they are part of that is in the same group
Scope == \A x \in 1..Len(GS) : LET g == GS[x]
             tops == {g[y][2] : y \in {y \in 1..Len(g) : Id(g[y]) = 0}}
         IN  \A y \in 1..Len(g) :
               /\ RuleMatches(g[y][1], d, g[y][2])
               /\ Id(g[y]) \in 1..3 => d[g[y][2]].p \in tops
               /\ Id(g[y]) >= 4 => Ancestors(d, g[y][2]) \intersect tops # {}
\* C04: a mandatory child must match among the children, a mandatory nested rule
\* anywhere below (lists of one rule; lists with optional rules reduce to their
\* mandatory ones, see OptionalBelow)
Mand(Q) == SelectSeq(Q, LAMBDA r : ~r.opt)
RunIn(Q, L) ==   \* the mandatory rules Q (<= 2) match in order somewhere in L
  CASE Len(Q) = 0 -> TRUE
    [] Len(Q) = 1 -> \E i \in 1..Len(L) : RuleMatches(Q[1], d, L[i])
    [] Len(Q) = 2 -> \E i \in 1..Len(L) : \E k \in (i+1)..Len(L) :
                        RuleMatches(Q[1], d, L[i]) /\ RuleMatches(Q[2], d, L[k])
\* greedy mandatory rules followed by a mandatory rule of overlapping type eat
\* no anchors: the next mandatory rule takes the first match behind the first one
SatSpec(n) ==
  /\ RuleMatches(T, d, n)
  /\ (T.ch # <<>> \/ T.ne # <<>>) => d[n].k = "e"
  /\ RunIn(Mand(T.ch), d[n].ch)
  /\ \A i \in 1..Len(T.ne) : Mand(T.ne[i]) = <<>> \/ RunIn(Mand(T.ne[i]), d[n].ch)
                              \/ \E m \in Below(n) : RunIn(Mand(T.ne[i]), d[m].ch)
SatMeaning == \A n \in 1..Len(d) : Sat(d, T, n).ok = SatSpec(n)
\* C02: below a rule, optional rules decide nothing
OptionalBelow == \A n \in 1..Len(d) :
   LET MR == [T EXCEPT !.ch = Mand(@),
                      !.ne = SelectSeq([i \in 1..Len(T.ne) |-> Mand(T.ne[i])], LAMBDA q : q # <<>>)]
   IN  d[n].k = "e" => Sat(d, T, n).ok = Sat(d, MR, n).ok
\* C04: a single rule reports every node it matches, in every sibling list, once,
\* lists before the lists below them
TopPairs == Concat([x \in 1..Len(GS) |-> SelectSeq(GS[x], LAMBDA p : Id(p) = 0)])
Coverage == (~T.greedy /\ ~T.opt) =>
   /\ {TopPairs[i][2] : i \in 1..Len(TopPairs)} = {n \in 1..Len(d) : SatSpec(n)}
   /\ Len(TopPairs) = Cardinality({n \in 1..Len(d) : SatSpec(n)})
   /\ Len(GS) = Len(TopPairs)
\* n before m: same list and earlier; or n's list is an ancestor list of m's; or
\* n's branch is left of m's at the list where they part
RECURSIVE Before(_, _)
Before(n, m) ==
  IF d[n].p = d[m].p THEN n < m
  ELSE IF d[n].p = 0 \/ d[n].p \in Ancestors(d, m) THEN TRUE
  ELSE IF d[m].p = 0 \/ d[m].p \in Ancestors(d, n) THEN FALSE
  ELSE n < m
Order == ~T.greedy => \A i \in 2..Len(TopPairs) : Before(TopPairs[i-1][2], TopPairs[i][2])
\* C15: searches: at least one per non-empty sibling list reached, and with
\* no nested rules exactly one
Lists_ == 1 + Cardinality({n \in 1..Len(d) : d[n].k = "e" /\ d[n].ch # <<>>})
SearchCount == LET c == Searches(d, R) IN c >= Lists_ /\ (T.ne = <<>> => c = Lists_)
=============================================================================
