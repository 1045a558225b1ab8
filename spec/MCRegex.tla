------------------------------ MODULE MCRegex ------------------------------
(* The backtracking matcher of module Regex against a denotational semantics: *)
(* an expression maps a place in the text to the sequence of all its outcomes *)
(* <<end, captures>>, in order of preference.  The two are checked against    *)
(* each other on all expressions of a family (that of GenRegex, and deeper    *)
(* ones) and all short texts.                                                 *)
EXTENDS GenRegex
VARIABLES rxk, rxp

RECURSIVE Outs(_, _, _, _), OutSeq(_, _, _, _, _), OutAlt(_, _, _, _, _)
Bind(outs, F(_)) == FoldLeft(LAMBDA acc, o : acc \o F(o), <<>>, outs)
Outs(n, s, i, c) ==
  CASE n.t = "set" -> IF i <= Len(s) /\ s[i] \in n.s THEN << <<i + 1, c>> >> ELSE <<>>
    [] n.t = "at"  -> IF Holds(n.k, s, i) THEN << <<i, c>> >> ELSE <<>>
    [] n.t = "seq" -> OutSeq(n.a, 1, s, i, c)
    [] n.t = "alt" -> OutAlt(n.a, 1, s, i, c)
    [] n.t = "grp" -> [k \in DOMAIN Outs(n.n, s, i, c) |->
                         LET o == Outs(n.n, s, i, c)[k] IN <<o[1], [o[2] EXCEPT ![n.i] = <<i, o[1]>>]>>]
    [] n.t = "ref" -> LET b == c[n.i][1]
                          w == SubSeq(s, b, c[n.i][2] - 1)
                          v == SubSeq(s, i, i + Len(w) - 1)
                      IN  IF b = 0 THEN <<>>
                          ELSE IF i + Len(w) - 1 <= Len(s) /\ (v = w \/ (n.ic /\ Lower(v) = Lower(w)))
                               THEN << <<i + Len(w), c>> >> ELSE <<>>
    [] n.t = "look" -> LET o == Outs(n.n, s, i, c)
                       IN  IF n.neg THEN (IF o = <<>> THEN << <<i, c>> >> ELSE <<>>)
                           ELSE IF o = <<>> THEN <<>> ELSE << <<i, o[1][2]>> >>
    [] n.t = "rep" ->
         IF n.hi = 0 THEN << <<i, c>> >>
         ELSE LET m == [n EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0, !.hi = IF @ > 0 THEN @ - 1 ELSE @]
                  more == Bind(Outs(n.n, s, i, c), LAMBDA o : IF o[1] = i THEN <<o>> ELSE Outs(m, s, o[1], o[2]))
                  stop == << <<i, c>> >>
              IN  IF n.lo > 0 THEN more ELSE IF n.lazy THEN stop \o more ELSE more \o stop
OutSeq(a, k, s, i, c) ==
  IF k > Len(a) THEN << <<i, c>> >>
  ELSE Bind(Outs(a[k], s, i, c), LAMBDA o : OutSeq(a, k + 1, s, o[1], o[2]))
OutAlt(a, k, s, i, c) ==
  IF k > Len(a) THEN <<>> ELSE Outs(a[k], s, i, c) \o OutAlt(a, k + 1, s, i, c)

NoCaps(p) == [j \in 1..p.g |-> <<0, 0>>]
\* the leftmost match, and of those the preferred one
Den(p, s) ==
  LET at == {i \in 1..(Len(s) + 1) : Outs(p.re, s, i, NoCaps(p)) # <<>>}
  IN  IF at = {} THEN [ok |-> FALSE]
      ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
               o == Outs(p.re, s, i, NoCaps(p))[1]
           IN  [ok |-> TRUE, b |-> i, e |-> o[1], c |-> o[2]]

Texts_ == TLCEval(UNION {[1..k -> {97, 66, 10}] : k \in 0..3})
Deep(T) == {B("(?:") \o p[1] \o B("|") \o p[2] \o B("){2}") : p \in T \X T}
           \union {B("(?:") \o p[1] \o B("(") \o p[2] \o B(")?)*") : p \in T \X T}
           \union {B("((") \o p[1] \o B(")|") \o p[2] \o B(")*?$") : p \in T \X T}
Init_ == gcase = 0 /\ gchunk = 0 /\ rxp = FALSE /\ rxk \in (Exprs(TLCEval(Terms)) \union Deep(TLCEval(Terms))) \X {"", "i"}
\* parsing an expression takes some time: one step, so that states are few
Next_ == rxp = FALSE /\ rxp' = TRUE /\ UNCHANGED <<rxk, gcase, gchunk>>
MRSpec == Init_ /\ [][Next_]_<<rxk, rxp, gcase, gchunk>>
Parsed == RegexParse(rxk[1], rxk[2] = "i")
SameMatch == rxp => LET p == Parsed IN p.st = "ok" => \A s \in Texts_ : Search(p, s) = Den(p, s)
\* laws that do not depend on the matcher: what is found at all, and where
WholeText == rxp => LET p == Parsed IN p.st = "ok" =>
   \A s \in Texts_ : LET m == Search(p, s) IN
      /\ m.ok => 1 <= m.b /\ m.b <= m.e /\ m.e <= Len(s) + 1
      /\ m.ok => \A j \in 1..p.g : m.c[j][1] # 0 => m.c[j][1] <= m.c[j][2] /\ m.c[j][2] <= Len(s) + 1
\* replacing by the whole match changes nothing
Identity == rxp => LET p == Parsed IN p.st = "ok" => \A s \in Texts_ : ReplaceAll_(p, s, B("$&")) = s
\* without a match, nothing is replaced
NoMatchSame == rxp => LET p == Parsed IN p.st = "ok" => \A s \in Texts_ : ~Search(p, s).ok => ReplaceAll_(p, s, B("x")) = s /\ Filter(p, s) = <<>>
=============================================================================
