----------------------------- MODULE MCMatching ----------------------------
(* Exhaustive check of the matching semantics on small scopes: every list of  *)
(* up to MaxRules sibling rules over every list of up to MaxSibs siblings.    *)
EXTENDS MatchingOps
CONSTANTS MaxRules, MaxSibs, RuleTags, NodeTags
VARIABLES R, d
vars == <<R, d>>

\* rule j of a list is made recognisable by its capture
MkRule(j, t, o, g) == Rule(B(t), <<>>, o, g, <<>>, <<[c |-> "fn", f |-> "text", to |-> <<48 + j>>, ps |-> <<>>]>>, <<>>, <<>>)
RuleLists ==
  UNION {{[j \in 1..k |-> MkRule(j, c[j][1], c[j][2], c[j][3])] :
            c \in [1..k -> RuleTags \X BOOLEAN \X BOOLEAN]} : k \in 1..MaxRules}
Node(k, p, ch, n) == [k |-> k, p |-> p, ch |-> ch, n |-> n, u |-> FALSE, at |-> <<>>, x |-> <<>>]
\* a document of one element whose children are the siblings; "#" is text
DocOf(ts) ==
  <<Node("e", 0, [i \in 1..Len(ts) |-> i + 1], B("div"))>> \o
  [i \in 1..Len(ts) |-> IF ts[i] = "#" THEN Node("t", 1, <<>>, <<>>) ELSE Node("e", 1, <<>>, B(ts[i]))]
Init == R \in RuleLists /\ d = DocOf(<<>>)
\* the document grows by one sibling
Next == /\ Len(d) <= MaxSibs
        /\ \E t \in NodeTags :
             d' = Append([d EXCEPT ![1].ch = Append(@, Len(d) + 1)],
                         IF t = "#" THEN Node("t", 1, <<>>, <<>>) ELSE Node("e", 1, <<>>, B(t)))
        /\ UNCHANGED R
Spec == Init /\ [][Next]_vars

L == d[1].ch
GS == Groups(d, R, L, 1)
\* position of a pair's node, index of its rule
Pos(p) == p[2] - 1
Idx(p) == p[1].cs[1].to[1] - 48
OfRule(g, j) == SelectSeq(g, LAMBDA p : Idx(p) = j)
MandPos(g, j) == Pos(OfRule(g, j)[1])       \* anchor of a mandatory rule

TypeOK == WellFormed(d)

\* the declarative and the step-by-step description agree
SameGroups == OGroups(d, R, L, 1).gs = GS

\* C06/C02: only nodes that satisfy the rule
Sound == \A x \in 1..Len(GS) : \A y \in 1..Len(GS[x]) : RuleMatches(GS[x][y][1], d, GS[x][y][2])

\* C01: rules match in document order
InOrder == \A x \in 1..Len(GS) : \A y \in 2..Len(GS[x]) :
   Pos(GS[x][y-1]) < Pos(GS[x][y]) /\ Idx(GS[x][y-1]) <= Idx(GS[x][y])

\* C01: all or nothing; C02, C03: multiplicities
Multiplicity == \A x \in 1..Len(GS) : \A j \in 1..Len(R) :
   LET n == Len(OfRule(GS[x], j))
   IN  (~R[j].opt => n >= 1) /\ (~R[j].greedy => n <= 1)

\* C01: groups are disjoint and ascending
Disjoint == \A x \in 2..Len(GS) : Pos(GS[x-1][Len(GS[x-1])]) < Pos(GS[x][1])

\* C01: every mandatory rule takes the first sibling behind its predecessor
FirstFit == \A x \in 1..Len(GS) : LET mm == MandatoryIdx(R) IN
   \A q \in 2..Len(mm) : \A i \in 1..Len(L) :
      i > MandPos(GS[x], mm[q-1]) /\ i < MandPos(GS[x], mm[q]) => ~RuleMatches(R[mm[q]], d, L[i])

\* C01: the first mandatory rule takes the first one behind the previous group
\* (if its last rule is mandatory and not repeated, nothing is skipped)
Resume == LET mm == MandatoryIdx(R) IN
   (mm # <<>> /\ ~(R[mm[1]].greedy)) =>
   \A x \in 1..Len(GS) : \A i \in 1..(MandPos(GS[x], mm[1]) - 1) :
      RuleMatches(R[mm[1]], d, L[i]) => x > 1 /\ i <= MandPos(GS[x-1], mm[Len(mm)])

\* C01: nothing is left over: behind the last group there is no further
\* complete run of the mandatory rules (templates of non-greedy mandatory rules)
NothingLeft == LET mm == MandatoryIdx(R) IN
   (Len(mm) = Len(R) /\ \A j \in 1..Len(R) : ~R[j].greedy) =>
     LET b == IF GS = <<>> THEN 1 ELSE Pos(GS[Len(GS)][Len(R)]) + 1
         run[q \in 0..Len(R)] == IF q = 0 THEN b - 1
            ELSE IF run[q-1] = -1 THEN -1
            ELSE LET c == {i \in (run[q-1]+1)..Len(L) : RuleMatches(R[q], d, L[i])}
                 IN IF c = {} THEN -1 ELSE CHOOSE i \in c : \A k \in c : i <= k
     IN  run[Len(R)] = -1

\* C02: removing an optional non-greedy rule changes no match of the mandatory
\* non-greedy rules
MandMatches(Q) == LET gs == Groups(d, Q, L, 1) IN
  Concat([x \in 1..Len(gs) |-> SelectSeq(gs[x], LAMBDA p : ~p[1].opt /\ ~p[1].greedy)])
Without(j) == SubSeq(R, 1, j-1) \o SubSeq(R, j+1, Len(R))
OptionalNeutral == \A j \in 1..Len(R) :
   R[j].opt /\ ~R[j].greedy /\ Len(R) > 1 => MandMatches(R) = MandMatches(Without(j))

\* C02: an optional rule that directly follows a mandatory non-greedy one takes the
\* first sibling in the window up to the next mandatory match, if there is one
OptionalTaken == \A x \in 1..Len(GS) : \A j \in 2..(Len(R)-1) :
   (R[j].opt /\ ~R[j-1].opt /\ ~R[j-1].greedy /\ ~R[j+1].opt) =>
      LET lo == MandPos(GS[x], j-1)
          hi == MandPos(GS[x], j+1)
          c == {i \in (lo+1)..(hi-1) : RuleMatches(R[j], d, L[i])}
          o == OfRule(GS[x], j)
      IN  IF c = {} THEN o = <<>> ELSE o # <<>> /\ Pos(o[1]) = (CHOOSE i \in c : \A k \in c : i <= k)

\* C03: a greedy rule with no rule before it collects every repetition up to the
\* next mandatory rule's match (or the end of the siblings if it is the only rule)
GreedyAll ==
  (R[1].greedy /\ ~R[1].opt /\ Len(R) >= 2 /\ ~R[2].opt) =>
     \A x \in 1..Len(GS) :
       {Pos(OfRule(GS[x], 1)[y]) : y \in 1..Len(OfRule(GS[x], 1))} =
       {i \in MandPos(GS[x], 1)..(MandPos(GS[x], 2) - 1) : RuleMatches(R[1], d, L[i])}
GreedyAlone ==
  (Len(R) = 1 /\ R[1].greedy) =>
     GS = LET all == SelectSeq(L, LAMBDA n : RuleMatches(R[1], d, n))
          IN  IF all = <<>> THEN <<>> ELSE << [i \in 1..Len(all) |-> <<R[1], all[i]>>] >>
Single ==
  (Len(R) = 1 /\ ~R[1].greedy /\ ~R[1].opt) =>
     GS = LET all == SelectSeq(L, LAMBDA n : RuleMatches(R[1], d, n))
          IN  [i \in 1..Len(all) |-> << <<R[1], all[i]>> >>]
=============================================================================
