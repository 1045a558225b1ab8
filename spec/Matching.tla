------------------------------ MODULE Matching -----------------------------
(* How a list of rules is matched against a list of siblings, and a template  *)
(* against a document -- declaratively: where the mandatory rules are         *)
(* anchored, and what the optional and repeated rules collect in the windows  *)
(* between the anchors.  MatchingOps describes the same thing the way the     *)
(* code does it; MCMatching checks that the two agree.                        *)
(*                                                                            *)
(* A pair is <<rule, node>>; a group is a sequence of pairs.                  *)
EXTENDS Values

IsMandatory(r) == ~r.opt
AnyMandatory(R) == \E j \in 1..Len(R) : IsMandatory(R[j])
MandatoryIdx(R) == SetToSortSeq({j \in 1..Len(R) : IsMandatory(R[j])}, <)

RECURSIVE Sat(_, _, _), Groups(_, _, _, _), Group(_, _, _, _), SearchAll(_, _, _),
          Fill(_, _, _, _, _, _, _), FirstSat(_, _, _, _, _)

\* Does rule r, with everything below it, match node n?  [ok, sub]: sub are
\* the pairs of the rules below r.
Sat(d, r, n) ==
  LET no == [ok |-> FALSE, sub |-> <<>>]
  IN  IF ~RuleMatches(r, d, n) THEN no
      ELSE IF r.ch = <<>> /\ r.ne = <<>> THEN [ok |-> TRUE, sub |-> <<>>]
      ELSE IF d[n].k # "e" THEN no
      ELSE
        \* child rules match among the children, as often as possible; at least
        \* once if any of them is mandatory
        LET cg == IF r.ch = <<>> THEN <<>> ELSE Groups(d, r.ch, d[n].ch, 1)
            cok == r.ch = <<>> \/ cg # <<>> \/ ~AnyMandatory(r.ch)
        IN  IF ~cok THEN no
            \* nested rules match anywhere below n
            ELSE LET ng == TLCEval([i \in 1..Len(r.ne) |-> SearchAll(d, r.ne[i], d[n].ch)])
                     nok == \A i \in 1..Len(r.ne) : ng[i] # <<>> \/ ~AnyMandatory(r.ne[i])
                 IN  IF ~nok THEN no
                     ELSE [ok |-> TRUE, sub |-> Concat(cg) \o Concat([i \in 1..Len(ng) |-> Concat(ng[i])])]

\* The first position of L in i..e that satisfies r: [pos (0: none), sub]
FirstSat(d, r, L, i, e) ==
  IF i > e THEN [pos |-> 0, sub |-> <<>>]
  ELSE LET s == Sat(d, r, L[i])
       IN  IF s.ok THEN [pos |-> i, sub |-> s.sub] ELSE FirstSat(d, r, L, i + 1, e)

\* What the rules R[k..m] collect from the window L[i..e]: each is matched at
\* most once, behind the matches of its predecessors; greedy rules repeatedly.
\* [pairs, last]: last is the position where the last rule, R[m], matched on
\* its last attempt (0: it did not).
Fill(d, R, k, m, L, i, e) ==
  IF k > m THEN [pairs |-> <<>>, last |-> 0]
  ELSE LET f == FirstSat(d, R[k], L, i, e)
       IN  IF f.pos = 0
           THEN IF k = m THEN [pairs |-> <<>>, last |-> 0] ELSE Fill(d, R, k + 1, m, L, i, e)
           ELSE LET rest == Fill(d, R, IF R[k].greedy THEN k ELSE k + 1, m, L, f.pos + 1, e)
                IN  [pairs |-> f.sub \o << <<R[k], L[f.pos]>> >> \o rest.pairs,
                     last |-> IF k = m /\ ~R[k].greedy THEN f.pos ELSE rest.last]

\* One group, from position i on: [ok, pairs, next]; next: where the next
\* group may begin (0: nowhere).
\*  mm    indices of the mandatory rules
\*  marker(q)  mandatory rule q only marks the end of a window: rules precede
\*        it that are optional, or a greedy rule that is being repeated
\*  repeats(q) it is greedy and collects repetitions
\*  from(q)    first rule of the window behind it
Group(d, R, L, i) ==
  LET mm == MandatoryIdx(R)
      k  == Len(mm)
      n  == Len(R)
      mk == TLCEval(FoldLeft(LAMBDA acc, q :
               Append(acc, IF q = 1 THEN mm[1] > 1
                           ELSE mm[q] > mm[q-1] + 1 \/ (R[mm[q-1]].greedy /\ ~acc[q-1])),
               <<>>, [q \in 1..k |-> q]))
      repeats(q) == R[mm[q]].greedy /\ ~mk[q]
      from(q) == IF repeats(q) THEN mm[q] ELSE mm[q] + 1
      \* anchors: the first sibling behind the previous anchor that satisfies
      \* the mandatory rule
      anchors == TLCEval(FoldLeft(LAMBDA acc, q :
               IF Len(acc) < q - 1 THEN acc
               ELSE LET f == FirstSat(d, R[mm[q]], L, IF q = 1 THEN i ELSE acc[q-1].pos + 1, Len(L))
                    IN  IF f.pos = 0 THEN acc ELSE Append(acc, f),
               <<>>, [q \in 1..k |-> q]))
      \* window of pairs before anchor q
      before(q) == Fill(d, R, IF q = 1 THEN 1 ELSE from(q-1), mm[q] - 1, L,
                        IF q = 1 THEN i ELSE anchors[q-1].pos + 1, anchors[q].pos - 1).pairs
      core == Concat([q \in 1..k |->
                 anchors[q].sub \o before(q) \o << <<R[mm[q]], L[anchors[q].pos]>> >>])
      \* behind the last anchor
      tl == IF k = 0 THEN 1 ELSE from(k)
      b == IF k = 0 THEN i ELSE anchors[k].pos + 1
      wraps == k > 0 /\ mm[1] < tl   \* the next group's first mandatory rule ends the window
      stop == IF wraps THEN FirstSat(d, R[mm[1]], L, b, Len(L)).pos ELSE 0
      tail == Fill(d, R, tl, n, L, b, IF stop # 0 THEN stop - 1 ELSE Len(L))
  IN  IF i > Len(L) \/ Len(anchors) < k THEN [ok |-> FALSE, pairs |-> <<>>, next |-> 0]
      ELSE IF tl > n \/ b > Len(L) THEN [ok |-> TRUE, pairs |-> core, next |-> b]
      ELSE [ok |-> TRUE, pairs |-> core \o tail.pairs,
            next |-> IF wraps THEN stop ELSE IF tail.last # 0 THEN tail.last + 1 ELSE 0]

\* All groups of a sibling list, from position i on.
Groups(d, R, L, i) ==
  LET g == Group(d, R, L, i)
      rest == IF g.next = 0 \/ g.next > Len(L) THEN <<>> ELSE Groups(d, R, L, g.next)
  IN  IF ~g.ok THEN <<>> ELSE IF g.pairs = <<>> THEN rest ELSE <<g.pairs>> \o rest

\* All groups of a sibling list and of the lists below it, a list before the
\* lists below it, those in document order.
SearchAll(d, R, L) ==
  Groups(d, R, L, 1) \o
  FoldLeft(LAMBDA acc, n :
             IF d[n].k = "e" /\ d[n].ch # <<>> THEN acc \o SearchAll(d, R, d[n].ch) ELSE acc,
           <<>>, L)

TopGroups(d, R) == SearchAll(d, R, <<1>>)

(* ---- results *)
\* A group's pairs of names and values: sorted by name, equal names in order.
SortByName(ps) ==
  FoldLeft(LAMBDA acc, p :
     LET i == Cardinality({j \in 1..Len(acc) : LessEq(acc[j][1], p[1])})
     IN  SubSeq(acc, 1, i) \o <<p>> \o SubSeq(acc, i + 1, Len(acc)),
     <<>>, ps)
GroupResult(d, g) == SortByName(Concat([i \in 1..Len(g) |-> Captures(g[i][1], d, g[i][2])]))
Results(d, R) ==
  LET gs == TopGroups(d, R)
  IN  SelectSeq(TLCEval([i \in 1..Len(gs) |-> GroupResult(d, gs[i])]), LAMBDA g : g # <<>>)
=============================================================================
