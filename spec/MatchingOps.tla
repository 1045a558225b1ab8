---------------------------- MODULE MatchingOps ----------------------------
(* The matching algorithm step by step, in the order in which the library     *)
(* performs it, counting searches: cursor over rules and siblings, look-ahead *)
(* for the next mandatory rule, discarded look-ahead matches.  It yields the  *)
(* same groups as Matching (MCMatching), plus the number of sibling-list      *)
(* searches begun, which max_searches limits.                                 *)
EXTENDS Matching

RECURSIVE OSat(_, _, _), OOnce(_, _, _, _, _), ORange(_, _, _, _, _, _, _, _),
          OGroup(_, _, _, _, _, _, _, _), OGroups(_, _, _, _), OSearch(_, _, _),
          ONested(_, _, _, _, _, _)

\* [ok, sub, c]: c = searches begun
OSat(d, r, n) ==
  LET no(c) == [ok |-> FALSE, sub |-> <<>>, c |-> c]
  IN  IF ~RuleMatches(r, d, n) THEN no(0)
      ELSE IF r.ch = <<>> /\ r.ne = <<>> THEN [ok |-> TRUE, sub |-> <<>>, c |-> 0]
      ELSE IF d[n].k # "e" THEN no(0)
      ELSE IF d[n].ch = <<>>
      THEN IF AnyMandatory(r.ch) \/ \E i \in 1..Len(r.ne) : AnyMandatory(r.ne[i]) THEN no(0)
           ELSE [ok |-> TRUE, sub |-> <<>>, c |-> 0]
      ELSE LET cg == IF r.ch = <<>> THEN [gs |-> <<>>, c |-> 0] ELSE OGroups(d, r.ch, d[n].ch, 1)
           IN  IF r.ch # <<>> /\ cg.gs = <<>> /\ AnyMandatory(r.ch) THEN no(cg.c)
               ELSE ONested(d, r.ne, d[n].ch, 1, Concat(cg.gs), cg.c)

ONested(d, ne, L, i, sub, c) ==
  IF i > Len(ne) THEN [ok |-> TRUE, sub |-> sub, c |-> c]
  ELSE LET s == OSearch(d, ne[i], L)
       IN  IF s.gs = <<>> /\ AnyMandatory(ne[i]) THEN [ok |-> FALSE, sub |-> <<>>, c |-> c + s.c]
           ELSE ONested(d, ne, L, i + 1, sub \o Concat(s.gs), c + s.c)

\* first match of r in L[i..e]
OOnce(d, r, L, i, e) ==
  IF i > e THEN [pos |-> 0, sub |-> <<>>, c |-> 0]
  ELSE LET s == OSat(d, r, L[i])
       IN  IF s.ok THEN [pos |-> i, sub |-> s.sub, c |-> s.c]
           ELSE LET o == OOnce(d, r, L, i + 1, e) IN [o EXCEPT !.c = @ + s.c]

\* rules k..m over L[i..e]; last = position returned by the last attempt
ORange(d, R, k, m, L, i, e, acc) ==
  IF k > m THEN acc
  ELSE LET o == OOnce(d, R[k], L, i, e)
           hit == o.pos # 0
       IN  ORange(d, R, IF hit /\ R[k].greedy THEN k ELSE k + 1, m, L, IF hit THEN o.pos + 1 ELSE i, e,
                  [pairs |-> IF hit THEN acc.pairs \o o.sub \o << <<R[k], L[o.pos]>> >> ELSE acc.pairs,
                   last |-> o.pos, c |-> acc.c + o.c])

NextMandatory(R, j, m) ==  \* first mandatory index in j..m, 0 if none
  LET s == {x \in j..m : IsMandatory(R[x])} IN IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x <= y

\* j: rule cursor, i: sibling cursor, just: rule j has just been matched
OGroup(d, R, L, j, i, sub, just, c) ==
  IF j > Len(R) \/ i > Len(L)
  THEN LET j1 == IF j <= Len(R) /\ R[j].greedy /\ just THEN j + 1 ELSE j
       IN  IF NextMandatory(R, j1, Len(R)) # 0
           THEN [pairs |-> <<>>, next |-> 0, c |-> c]
           ELSE [pairs |-> sub, next |-> i, c |-> c]
  ELSE IF R[j].opt \/ (R[j].greedy /\ just)
  THEN LET s == NextMandatory(R, j + 1, Len(R))
           w == NextMandatory(R, 1, j - 1)
       IN  IF s # 0
           THEN LET o == OOnce(d, R[s], L, i, Len(L))
                    f == ORange(d, R, j, s - 1, L, i, o.pos - 1, [pairs |-> <<>>, last |-> 0, c |-> 0])
                IN  IF o.pos = 0 THEN [pairs |-> <<>>, next |-> 0, c |-> c + o.c]
                    ELSE OGroup(d, R, L, s + 1, o.pos + 1,
                                sub \o o.sub \o f.pairs \o << <<R[s], L[o.pos]>> >>, FALSE, c + o.c + f.c)
           ELSE LET o == IF w # 0 THEN OOnce(d, R[w], L, i, Len(L)) ELSE [pos |-> 0, sub |-> <<>>, c |-> 0]
                    f == ORange(d, R, j, Len(R), L, i, IF o.pos # 0 THEN o.pos - 1 ELSE Len(L),
                                [pairs |-> <<>>, last |-> 0, c |-> 0])
                IN  [pairs |-> sub \o f.pairs, c |-> c + o.c + f.c,
                     next |-> IF w # 0 THEN o.pos ELSE IF f.last # 0 THEN f.last + 1 ELSE 0]
  ELSE LET o == OOnce(d, R[j], L, i, Len(L))
       IN  IF o.pos = 0 THEN [pairs |-> <<>>, next |-> 0, c |-> c + o.c]
           ELSE OGroup(d, R, L, IF R[j].greedy THEN j ELSE j + 1, o.pos + 1,
                       sub \o o.sub \o << <<R[j], L[o.pos]>> >>, R[j].greedy, c + o.c)

OGroups(d, R, L, i) ==
  IF i = 0 \/ i > Len(L) THEN [gs |-> <<>>, c |-> 0]
  ELSE LET g == OGroup(d, R, L, 1, i, <<>>, FALSE, 0)
           r == OGroups(d, R, L, g.next)
       IN  [gs |-> IF g.pairs = <<>> THEN r.gs ELSE <<g.pairs>> \o r.gs, c |-> g.c + r.c]

OSearch(d, R, L) ==
  LET g == OGroups(d, R, L, 1)
  IN  FoldLeft(LAMBDA acc, n :
          IF d[n].k = "e" /\ d[n].ch # <<>>
          THEN LET s == OSearch(d, R, d[n].ch) IN [gs |-> acc.gs \o s.gs, c |-> acc.c + s.c]
          ELSE acc,
        [gs |-> g.gs, c |-> g.c + 1], L)

OTop(d, R) == OSearch(d, R, <<1>>)
Searches(d, R) == OTop(d, R).c

\* Extraction with limit N (0: none)
Outcome(d, R, limit) ==
  LET t == OTop(d, R)
      res == SelectSeq(TLCEval([i \in 1..Len(t.gs) |-> GroupResult(d, t.gs[i])]), LAMBDA g : g # <<>>)
  IN  IF limit > 0 /\ t.c >= limit THEN [out |-> "limit", groups |-> <<>>]
      ELSE [out |-> "ok", groups |-> res]
=============================================================================
