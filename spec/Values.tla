------------------------------- MODULE Values ------------------------------
(* Value tests, pipes, traits, matches and captures: everything a rule says   *)
(* about a single node.                                                       *)
(*   test: [t |-> "any"]                            presence                  *)
(*         [t |-> "words"|"eq"|"begins"|"contains"|"ends", v |-> bytes]       *)
(*         [t |-> "re", re |-> RegexParse result]   [t |-> "not", x |-> test] *)
(*   pipe: [p |-> "trim"|"prepend"|"append", v |-> bytes]                     *)
(*         [p |-> "collapsews"|"tolower"|"toupper"]                           *)
(*         [p |-> "filter", re]  [p |-> "replace", re, v]                     *)
(*   match: [m |-> "attr", n, x |-> test]  [m |-> "fn", f, x |-> test]        *)
(*          [m |-> "nth", a, b, last, same]   a*k + b                         *)
(*          [m |-> "only", same] [m |-> "children", c] [m |-> "attrs", c]     *)
(*          [m |-> "type", re]   [m |-> "not", ms |-> <<matches>>]            *)
(*          [m |-> "user"]       a function of the API user: is it an element *)
(*   capture: [c |-> "attr", n, to, ps]  [c |-> "fn", f, to, ps]              *)
EXTENDS Regex, Text

(* ---- value tests.  A value is <<>> (missing) or <<bytes>>. *)
WordsOf(s) == SelectSeq(Split(s, SP), LAMBDA w : w # <<>>)
Range_(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE TestHolds(_, _)
TestHolds(x, val) ==
  CASE x.t = "any" -> val # <<>>
    [] x.t = "not" -> ~TestHolds(x.x, val)
    [] OTHER ->
        /\ val # <<>>
        /\ LET s == val[1]
           IN CASE x.t = "words" ->
                     /\ WordsOf(x.v) # <<>>
                     /\ Range_(WordsOf(x.v)) \subseteq Range_(WordsOf(s))
                [] x.t = "eq"       -> s = x.v
                [] x.t = "begins"   -> StartsWith(s, x.v)
                [] x.t = "ends"     -> EndsWith(s, x.v)
                [] x.t = "contains" -> HasSub(s, x.v)
                [] x.t = "re"       -> Found(x.re, s)

(* ---- pipes *)
Pipe(p, s) ==
  CASE p.p = "trim"       -> TrimSet(s, Range_(p.v))
    [] p.p = "collapsews" -> CollapseWs(s)
    [] p.p = "tolower"    -> Lower(s)
    [] p.p = "toupper"    -> Upper(s)
    [] p.p = "prepend"    -> p.v \o s
    [] p.p = "append"     -> s \o p.v
    [] p.p = "filter"     -> Filter(p.re, s)
    [] p.p = "replace"    -> ReplaceAll_(p.re, s, p.v)
Pipes(ps, s) == FoldLeft(LAMBDA acc, p : Pipe(p, acc), s, ps)

(* ---- traits.  Siblings are the elements among the parent's children. *)
Siblings(d, n) ==
  IF d[n].p = 0 \/ d[d[n].p].k # "e" THEN <<>>
  ELSE SelectSeq(d[d[n].p].ch, LAMBDA c : d[c].k = "e")
SameType(d, n, ns) == SelectSeq(ns, LAMBDA c : TypeOf(d, c) = TypeOf(d, n))
\* one-based position of n from the left (right) end; 0 if n has no siblings list
Position(d, n, last, same) ==
  LET s == IF same THEN SameType(d, n, Siblings(d, n)) ELSE Siblings(d, n)
      i == {j \in 1..Len(s) : s[j] = n}
  IN  IF i = {} THEN 0
      ELSE LET j == CHOOSE j \in i : TRUE IN IF last THEN Len(s) + 1 - j ELSE j
\* pos = a*k + b for some k >= 0, for a and b of 32 bits: their difference may
\* need more, so their residues are compared (pos >= 1; x % a is never negative)
OnProgression(pos, a, b) ==
  IF a = 0 THEN pos = b
  ELSE IF a > 0 THEN pos >= b /\ pos % a = b % a
  ELSE IF a < -2147483647 THEN pos = b
  ELSE pos <= b /\ pos % (0 - a) = b % (0 - a)

RECURSIVE Matches(_, _, _)
Matches(m, d, n) ==
  CASE m.m = "attr" ->
         d[n].k = "e" /\ TestHolds(m.x, IF HasAttr(d, n, m.n) THEN <<AttrValue(d, n, m.n)>> ELSE <<>>)
    [] m.m = "fn" -> TestHolds(m.x, <<Builtin(d, n, m.f)>>)
    [] m.m = "nth" ->
         d[n].k = "e" /\ LET pos == Position(d, n, m.last, m.same)
                          IN  pos # 0 /\ OnProgression(pos, m.a, m.b)
    [] m.m = "only" ->
         /\ d[n].k = "e"
         /\ LET s == Siblings(d, n) IN (IF m.same THEN SameType(d, n, s) ELSE s) = <<n>>
    [] m.m = "children" ->
         d[n].k = "e" /\ Len(SelectSeq(d[n].ch, LAMBDA c : d[c].k = "e")) = m.c
    [] m.m = "attrs" -> d[n].k = "e" /\ Len(d[n].at) = m.c
    [] m.m = "type" -> Found(m.re, IF d[n].k = "e" THEN d[n].n ELSE <<>>)
    [] m.m = "user" -> d[n].k = "e"
    [] m.m = "not" -> \A i \in 1..Len(m.ms) : ~Matches(m.ms[i], d, n)

(* ---- a rule and a node.  r.tag: "*", a standard name, or <<>> for a custom *)
(* name, which is then in r.name (<<>> or <<bytes>>).                         *)
TagMatches(r, d, n) ==
  \/ r.tag = AnyTag
  \/ d[n].k = "e" /\ ~d[n].u /\ d[n].n = r.tag
  \/ d[n].k = "e" /\ d[n].u /\ r.tag = <<>> /\ r.name # <<>> /\ Lower(r.name[1]) = Lower(d[n].n)
RuleMatches(r, d, n) == TagMatches(r, d, n) /\ \A i \in 1..Len(r.ms) : Matches(r.ms[i], d, n)

\* The pairs <<name, value>> that rule r captures from node n, in order.
Capture(c, d, n) ==
  IF c.c = "fn" THEN << <<c.to, Pipes(c.ps, Builtin(d, n, c.f))>> >>
  ELSE IF HasAttr(d, n, c.n) THEN << <<c.to, Pipes(c.ps, AttrValue(d, n, c.n))>> >>
  ELSE <<>>
Captures(r, d, n) == FoldLeft(LAMBDA acc, c : acc \o Capture(c, d, n), <<>>, r.cs)

Rule(tag, name, opt, greedy, ms, cs, ch, ne) ==
  [tag |-> tag, name |-> name, opt |-> opt, greedy |-> greedy,
   ms |-> ms, cs |-> cs, ch |-> ch, ne |-> ne]
\* The tag and name of a rule constructed from the text of a name.  ("*" is
\* not a tag name here; no element has it.)
NamedRule(tagname, opt, greedy) ==
  IF IsKnownTag(tagname) THEN Rule(Lower(tagname), <<>>, opt, greedy, <<>>, <<>>, <<>>, <<>>)
  ELSE Rule(<<>>, <<tagname>>, opt, greedy, <<>>, <<>>, <<>>, <<>>)
=============================================================================
