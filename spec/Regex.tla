------------------------------- MODULE Regex -------------------------------
(* Regular expressions: Perl syntax and leftmost, first-alternative matching. *)
(* RegexParse maps the text of an expression to                               *)
(*   [st |-> "ok", re |-> syntax tree, g |-> number of groups]                *)
(*   [st |-> "bad"]  the text is not a regular expression                     *)
(*   [st |-> "un"]   the text uses constructs outside of the modelled         *)
(*                   sublanguage; the specification says nothing about it     *)
(* Syntax trees:                                                              *)
(*   [t |-> "set", s |-> bytes]           one byte out of a set               *)
(*   [t |-> "seq", a |-> <<trees>>]       [t |-> "alt", a |-> <<trees>>]      *)
(*   [t |-> "rep", n |-> tree, lo, hi (-1: unbounded), lazy]                  *)
(*   [t |-> "grp", n |-> tree, i |-> number]                                  *)
(*   [t |-> "ref", i |-> number]          back-reference                      *)
(*   [t |-> "look", n |-> tree, neg]      lookahead                           *)
(*   [t |-> "at", k |-> "bol" | "eol" | "wordb" | "nwordb" | "bob" | "eob"]   *)
EXTENDS Bytes

AllBytes == 0..255
DigitSet == 48..57
WordSet  == (48..57) \union (65..90) \union (97..122) \union {95}
SpaceSet == {32} \union (9..13)
AlphaSet == (65..90) \union (97..122)

CaseFold(s, icase) ==
  IF icase THEN s \union {LowerC(c) : c \in s} \union {UpperC(c) : c \in s} ELSE s
Lit(c, icase) == [t |-> "set", s |-> CaseFold({c}, icase)]

ClassNames == [alpha |-> AlphaSet, digit |-> DigitSet, alnum |-> AlphaSet \union DigitSet,
               space |-> SpaceSet, upper |-> 65..90, lower |-> 97..122]
ClassOf(name) == LET hit == {k \in DOMAIN ClassNames : B(k) = name}
                 IN IF hit = {} THEN {} ELSE ClassNames[CHOOSE k \in hit : TRUE]

\* escapes that denote a set, outside and inside of brackets
EscSet == (Ch("d") :> DigitSet) @@ (Ch("D") :> AllBytes \ DigitSet) @@ (Ch("w") :> WordSet)
          @@ (Ch("W") :> AllBytes \ WordSet) @@ (Ch("s") :> SpaceSet) @@ (Ch("S") :> AllBytes \ SpaceSet)
EscChar == (Ch("n") :> 10) @@ (Ch("t") :> 9) @@ (Ch("r") :> 13) @@ (Ch("f") :> 12)
EscAnchor == (Ch("b") :> "wordb") @@ (Ch("B") :> "nwordb") @@ (Ch("`") :> "bob") @@ (Ch("'") :> "eob")

\* Results of the parsing operators: st "ok": n = tree, i = next index,
\* g = groups opened so far, mr = largest back-reference seen
Bad == [st |-> "bad", n |-> <<>>, i |-> 0, g |-> 0, mr |-> 0]
Un  == [st |-> "un",  n |-> <<>>, i |-> 0, g |-> 0, mr |-> 0]
Ok(n, i, g, mr) == [st |-> "ok", n |-> n, i |-> i, g |-> g, mr |-> mr]

\* s[i], or -1 behind the end
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

(* ---- bracket expressions: s[i] is the first character behind '[' or '[^' *)
\* one element of a set: [st, set, i, single (is a single char)]
SetAtom(s, i) ==
  LET c == At(s, i)
  IN  CASE c = -1 -> [st |-> "bad", set |-> {}, i |-> 0, single |-> FALSE]
        [] c >= 128 -> [st |-> "un", set |-> {}, i |-> 0, single |-> FALSE]
        [] c = Ch("\\") ->
             LET e == At(s, i + 1)
             IN  CASE e = -1 -> [st |-> "bad", set |-> {}, i |-> 0, single |-> FALSE]
                   [] e \in DOMAIN EscSet -> [st |-> "ok", set |-> EscSet[e], i |-> i + 2, single |-> FALSE]
                   [] e \in DOMAIN EscChar -> [st |-> "ok", set |-> {EscChar[e]}, i |-> i + 2, single |-> TRUE]
                   [] IsAlnum(e) \/ e >= 128 -> [st |-> "un", set |-> {}, i |-> 0, single |-> FALSE]
                   [] OTHER -> [st |-> "ok", set |-> {e}, i |-> i + 2, single |-> TRUE]
        [] c = Ch("[") ->
             LET k == At(s, i + 1)
                 ends == {j \in (i+2)..(Len(s)-1) : s[j] = Ch(":") /\ s[j+1] = Ch("]")}
                 e == IF ends = {} THEN 0 ELSE CHOOSE j \in ends : \A m \in ends : j <= m
                 cl == IF e = 0 THEN {} ELSE ClassOf(SubSeq(s, i + 2, e - 1))
             IN  IF k = Ch(":") /\ cl # {}
                 THEN [st |-> "ok", set |-> cl, i |-> e + 2, single |-> FALSE]
                 ELSE IF k \in {Ch(":"), Ch("."), Ch("=")}
                 THEN [st |-> "un", set |-> {}, i |-> 0, single |-> FALSE]
                 ELSE [st |-> "ok", set |-> {c}, i |-> i + 1, single |-> TRUE]
        [] OTHER -> [st |-> "ok", set |-> {c}, i |-> i + 1, single |-> TRUE]

RECURSIVE SetBody(_, _, _, _)
SetBody(s, i, acc, first) ==
  IF At(s, i) = -1 THEN [st |-> "bad", set |-> {}, i |-> 0]
  ELSE IF s[i] = Ch("]") /\ ~first THEN [st |-> "ok", set |-> acc, i |-> i + 1]
  ELSE LET a == SetAtom(s, i)
       IN  IF a.st # "ok" THEN [st |-> a.st, set |-> {}, i |-> 0]
           ELSE IF At(s, a.i) = Ch("-") /\ At(s, a.i + 1) \notin {-1, Ch("]")}
           THEN LET b == SetAtom(s, a.i + 1)
                IN  IF ~a.single THEN [st |-> "un", set |-> {}, i |-> 0]
                    ELSE IF b.st # "ok" THEN [st |-> b.st, set |-> {}, i |-> 0]
                    ELSE IF ~b.single \/ s[a.i + 1] = Ch("-") THEN [st |-> "un", set |-> {}, i |-> 0]
                    ELSE LET lo == CHOOSE x \in a.set : TRUE
                             hi == CHOOSE x \in b.set : TRUE
                         IN  IF lo > hi THEN [st |-> "bad", set |-> {}, i |-> 0]
                             ELSE SetBody(s, b.i, acc \union (lo..hi), FALSE)
           ELSE IF a.single /\ s[i] = Ch("-") /\ ~first /\ At(s, a.i) # Ch("]")
                THEN [st |-> "un", set |-> {}, i |-> 0]
           ELSE SetBody(s, a.i, acc \union a.set, FALSE)

(* ---- quantifiers: s[i] is the character behind an atom *)
DigitsEnd(s, i) ==  \* first index >= i that is not a digit
  LET nd == {j \in i..Len(s) : ~IsDigit(s[j])}
  IN  IF nd = {} THEN Len(s) + 1 ELSE CHOOSE j \in nd : \A m \in nd : j <= m
Quant(s, i) ==   \* [st: "none"|"ok"|"bad"|"un", lo, hi, i]
  LET c == At(s, i)
      q(lo, hi, j) == [st |-> "ok", lo |-> lo, hi |-> hi, i |-> j]
      no == [st |-> "none", lo |-> 0, hi |-> 0, i |-> i]
      un == [st |-> "un", lo |-> 0, hi |-> 0, i |-> i]
  IN  CASE c = Ch("*") -> q(0, -1, i + 1)
        [] c = Ch("+") -> q(1, -1, i + 1)
        [] c = Ch("?") -> q(0, 1, i + 1)
        [] c = Ch("{") ->
             LET e1 == DigitsEnd(s, i + 1)
                 n1 == e1 - i - 1
                 e2 == DigitsEnd(s, e1 + 1)
                 n2 == e2 - e1 - 1
             IN  IF n1 = 0 \/ n1 > 3 \/ n2 > 3 THEN un
                 ELSE IF At(s, e1) = Ch("}")
                      THEN LET n == DigitsValue(SubSeq(s, i + 1, e1 - 1), FALSE) IN q(n, n, e1 + 1)
                 ELSE IF At(s, e1) = Ch(",") /\ At(s, e2) = Ch("}")
                      THEN LET lo == DigitsValue(SubSeq(s, i + 1, e1 - 1), FALSE)
                               hi == IF n2 = 0 THEN -1 ELSE DigitsValue(SubSeq(s, e1 + 1, e2 - 1), FALSE)
                           IN  IF hi >= 0 /\ hi < lo THEN [st |-> "bad", lo |-> 0, hi |-> 0, i |-> i]
                               ELSE q(lo, hi, e2 + 1)
                 ELSE un
        [] OTHER -> no

\* Repeating what may be empty, and repetition inside of a repetition without
\* bound (which the matcher may give up on) are not modelled.
RECURSIVE Nullable(_), Loops(_)
Nullable(n) == CASE n.t = "set" -> FALSE
                 [] n.t = "seq" -> \A i \in 1..Len(n.a) : Nullable(n.a[i])
                 [] n.t = "alt" -> \E i \in 1..Len(n.a) : Nullable(n.a[i])
                 [] n.t = "rep" -> n.lo = 0 \/ Nullable(n.n)
                 [] n.t = "grp" -> Nullable(n.n)
                 [] OTHER -> TRUE
Loops(n) == CASE n.t \in {"seq", "alt"} -> \E i \in 1..Len(n.a) : Loops(n.a[i])
              [] n.t = "rep" -> n.hi = -1 \/ Loops(n.n)
              [] n.t \in {"grp", "look"} -> Loops(n.n)
              [] OTHER -> FALSE

RECURSIVE PAlt(_, _, _, _, _), PSeq(_, _, _, _, _, _), PAtom(_, _, _, _, _)

\* alternatives up to ')' or the end; d = nesting depth
PAlt(s, i, g, d, ic) ==
  LET f == PSeq(s, i, g, d, ic, <<>>)
  IN  IF f.st # "ok" \/ At(s, f.i) # Ch("|") THEN f
      ELSE LET r == PAlt(s, f.i + 1, f.g, d, ic)
           IN  IF r.st # "ok" THEN r
               ELSE Ok([t |-> "alt", a |-> <<f.n>> \o (IF r.n.t = "alt" /\ "top" \in DOMAIN r.n THEN r.n.a ELSE <<r.n>>), top |-> TRUE],
                       r.i, r.g, IF r.mr > f.mr THEN r.mr ELSE f.mr)

PSeq(s, i, g, d, ic, acc) ==
  LET c == At(s, i)
  IN  IF c = -1 \/ c = Ch("|") \/ (c = Ch(")") /\ d > 0) THEN Ok([t |-> "seq", a |-> acc], i, g, 0)
      ELSE IF c = Ch(")") THEN Bad
      ELSE LET a == PAtom(s, i, g, d, ic)
           IN  IF a.st # "ok" THEN a
               ELSE LET q == Quant(s, a.i)
                        lz == q.st = "ok" /\ At(s, q.i) = Ch("?")
                        j == IF q.st # "ok" THEN a.i ELSE IF lz THEN q.i + 1 ELSE q.i
                        fix == a.n.t \in {"at"}
                    IN  IF q.st = "bad" THEN Bad
                        ELSE IF q.st = "un" THEN Un
                        ELSE IF q.st = "ok" /\ fix THEN (IF At(s, a.i) = Ch("{") THEN Un ELSE Bad)
                        ELSE IF q.st = "ok" /\ a.n.t = "look" THEN Un
                        ELSE IF q.st = "ok" /\ At(s, j) \in {Ch("*"), Ch("?")} THEN Bad
                        ELSE IF q.st = "ok" /\ At(s, j) \in {Ch("+"), Ch("{")} THEN Un
                        ELSE IF q.st = "ok" /\ (Nullable(a.n) \/ (q.hi \notin {0, 1} /\ Loops(a.n))) THEN Un
                        ELSE LET n == IF q.st = "none" THEN a.n
                                      ELSE [t |-> "rep", n |-> a.n, lo |-> q.lo, hi |-> q.hi, lazy |-> lz]
                                 r == PSeq(s, j, a.g, d, ic, Append(acc, n))
                             IN  IF r.st # "ok" THEN r
                                 ELSE [r EXCEPT !.mr = IF a.mr > r.mr THEN a.mr ELSE r.mr]

PAtom(s, i, g, d, ic) ==
  LET c == s[i]
  IN  CASE c = Ch(".") -> Ok([t |-> "set", s |-> AllBytes], i + 1, g, 0)
        [] c = Ch("^") -> Ok([t |-> "at", k |-> "bol"], i + 1, g, 0)
        [] c = Ch("$") -> Ok([t |-> "at", k |-> "eol"], i + 1, g, 0)
        [] c \in {Ch("*"), Ch("+"), Ch("?")} -> Bad
        [] c = Ch("{") -> Un
        [] c = Ch("[") ->
             LET neg == At(s, i + 1) = Ch("^")
                 b == SetBody(s, IF neg THEN i + 2 ELSE i + 1, {}, TRUE)
                 f == CaseFold(b.set, ic)
             IN  IF b.st = "bad" THEN Bad ELSE IF b.st = "un" THEN Un
                 ELSE Ok([t |-> "set", s |-> IF neg THEN AllBytes \ f ELSE f], b.i, g, 0)
        [] c = Ch("\\") ->
             LET e == At(s, i + 1)
             IN  CASE e = -1 -> Bad
                   [] e \in DOMAIN EscSet -> Ok([t |-> "set", s |-> EscSet[e]], i + 2, g, 0)
                   [] e \in DOMAIN EscChar -> Ok([t |-> "set", s |-> {EscChar[e]}], i + 2, g, 0)
                   [] e \in DOMAIN EscAnchor -> Ok([t |-> "at", k |-> EscAnchor[e]], i + 2, g, 0)
                   [] e >= 49 /\ e <= 57 ->
                        IF IsDigit(At(s, i + 2)) THEN Un
                        ELSE Ok([t |-> "ref", i |-> e - 48, ic |-> ic], i + 2, g, e - 48)
                   [] IsAlnum(e) \/ e >= 128 \/ e \in {Ch("<"), Ch(">")} -> Un
                   [] OTHER -> Ok(Lit(e, ic), i + 2, g, 0)
        [] c = Ch("(") ->
             LET q == At(s, i + 1) = Ch("?")
                 k == At(s, i + 2)
             IN  IF At(s, i + 1) = Ch("*") THEN Un
                 ELSE IF q /\ k \notin {Ch(":"), Ch("="), Ch("!")} THEN Un
                 ELSE LET b == PAlt(s, IF q THEN i + 3 ELSE i + 1, IF q THEN g ELSE g + 1, d + 1, ic)
                      IN  IF b.st # "ok" THEN b
                          ELSE IF At(s, b.i) # Ch(")") THEN Bad
                          ELSE Ok(CASE ~q -> [t |-> "grp", n |-> b.n, i |-> g + 1]
                                    [] q /\ k = Ch(":") -> [t |-> "seq", a |-> <<b.n>>]
                                    [] OTHER -> [t |-> "look", n |-> b.n, neg |-> k = Ch("!")],
                                  b.i + 1, b.g, b.mr)
        [] OTHER -> Ok(Lit(c, ic), i + 1, g, 0)

RegexParse(s, icase) ==
  LET r == PAlt(s, 1, 0, 0, icase)
  IN  IF r.st # "ok" THEN [st |-> r.st]
      ELSE IF r.mr > r.g THEN [st |-> "bad"]
      ELSE [st |-> "ok", re |-> r.n, g |-> r.g]

(* ---- matching ---- *)
\* Match the trees k (a sequence) at index i of s, with captures c (a sequence
\* of <<begin, end>>, <<0, 0>> if unset).  nn: index at which a match may not
\* end (0: none).  Result: <<>>, or <<end index, captures>>.
IsSep(c) == c = 10 \/ c = 13 \/ c = 12
IsWordAt(s, i) == At(s, i) \in WordSet
Holds(k, s, i) ==
  CASE k = "bol" -> i = 1 \/ (IsSep(s[i-1]) /\ ~(i <= Len(s) /\ s[i-1] = 13 /\ s[i] = 10))
    [] k = "eol" -> i = Len(s) + 1 \/ (IsSep(s[i]) /\ ~(i > 1 /\ s[i-1] = 13 /\ s[i] = 10))
    [] k = "wordb" -> IsWordAt(s, i - 1) # IsWordAt(s, i)
    [] k = "nwordb" -> IsWordAt(s, i - 1) = IsWordAt(s, i)
    [] k = "bob" -> i = 1
    [] k = "eob" -> i = Len(s) + 1

RECURSIVE M(_, _, _, _, _), MAlt(_, _, _, _, _, _)
M(k, s, i, c, nn) ==
  IF k = <<>> THEN IF i = nn THEN <<>> ELSE <<i, c>>
  ELSE LET h == Head(k)
           r == Tail(k)
       IN CASE h.t = "set" -> IF i <= Len(s) /\ s[i] \in h.s THEN M(r, s, i + 1, c, nn) ELSE <<>>
            [] h.t = "seq" -> M(h.a \o r, s, i, c, nn)
            [] h.t = "alt" -> MAlt(h.a, r, s, i, c, nn)
            [] h.t = "at"  -> IF Holds(h.k, s, i) THEN M(r, s, i, c, nn) ELSE <<>>
            [] h.t = "grp" -> M(<<h.n, [t |-> "end", i |-> h.i, b |-> i]>> \o r, s, i, c, nn)
            [] h.t = "end" -> M(r, s, i, [c EXCEPT ![h.i] = <<h.b, i>>], nn)
            [] h.t = "ref" ->
                 LET b == c[h.i][1]
                     n == c[h.i][2] - b
                     eq(x, y) == x = y \/ (h.ic /\ LowerC(x) = LowerC(y))
                 IN  IF b = 0 THEN <<>>
                     ELSE IF i + n - 1 <= Len(s) /\ \A m \in 0..(n-1) : eq(s[b + m], s[i + m])
                     THEN M(r, s, i + n, c, nn) ELSE <<>>
            [] h.t = "look" ->
                 LET m == M(<<h.n>>, s, i, c, 0)
                 IN  IF h.neg THEN (IF m = <<>> THEN M(r, s, i, c, nn) ELSE <<>>)
                     ELSE IF m = <<>> THEN <<>> ELSE M(r, s, i, m[2], nn)
            [] h.t = "loop" ->      \* behind one iteration that began at h.b
                 IF i = h.b THEN M(r, s, i, c, nn)
                 ELSE M(<<h.rep>> \o r, s, i, c, nn)
            [] h.t = "rep" ->
                 IF h.hi = 0 THEN M(r, s, i, c, nn)
                 ELSE LET next == [h EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0,
                                            !.hi = IF @ > 0 THEN @ - 1 ELSE @]
                          more == M(<<h.n, [t |-> "loop", b |-> i, rep |-> next]>> \o r, s, i, c, nn)
                          stop == M(r, s, i, c, nn)
                      IN  IF h.lo > 0 THEN more
                          ELSE IF h.lazy THEN (IF stop # <<>> THEN stop ELSE more)
                          ELSE (IF more # <<>> THEN more ELSE stop)
MAlt(as, r, s, i, c, nn) ==
  IF as = <<>> THEN <<>>
  ELSE LET m == M(<<Head(as)>> \o r, s, i, c, nn)
       IN  IF m # <<>> THEN m ELSE MAlt(Tail(as), r, s, i, c, nn)

NoMatch == [ok |-> FALSE]
RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(p, s, i, nn) ==
  IF i > Len(s) + 1 THEN NoMatch
  ELSE LET m == M(<<p.re>>, s, i, [j \in 1..p.g |-> <<0, 0>>], nn)
       IN  IF m # <<>> THEN [ok |-> TRUE, b |-> i, e |-> m[1], c |-> m[2]]
           ELSE SearchFrom(p, s, i + 1, nn)
Search(p, s) == SearchFrom(p, s, 1, 0)

Found(p, s) == Search(p, s).ok
Piece(s, m, i) ==   \* text of group i of match m; group 0 is the whole match
  IF i = 0 THEN SubSeq(s, m.b, m.e - 1)
  ELSE IF i > Len(m.c) \/ m.c[i][1] = 0 THEN <<>>
  ELSE SubSeq(s, m.c[i][1], m.c[i][2] - 1)

\* filter: the first group, or the whole match if there is none
Filter(p, s) ==
  LET m == Search(p, s)
  IN  IF ~m.ok THEN <<>> ELSE Piece(s, m, IF p.g > 0 THEN 1 ELSE 0)

(* ---- replacement format: $$ $& $1..$99 ${n} \1..\9 \n \t \r \f \<other>;   *)
(* FormatModelled says whether only these occur                               *)
RECURSIVE Expand(_, _, _, _)
Expand(f, s, m, i) ==
  LET c == At(f, i)
      n == At(f, i + 1)
  IN  IF c = -1 THEN <<>>
      ELSE IF c = Ch("$") /\ n = Ch("$") THEN <<c>> \o Expand(f, s, m, i + 2)
      ELSE IF c = Ch("$") /\ n = Ch("&") THEN Piece(s, m, 0) \o Expand(f, s, m, i + 2)
      ELSE IF c = Ch("$") /\ IsDigit(n) THEN
           LET e == DigitsEnd(f, i + 1)
           IN  Piece(s, m, DigitsValue(SubSeq(f, i + 1, e - 1), FALSE)) \o Expand(f, s, m, e)
      ELSE IF c = Ch("$") /\ n = Ch("{") THEN
           LET e == DigitsEnd(f, i + 2)
           IN  Piece(s, m, DigitsValue(SubSeq(f, i + 2, e - 1), FALSE)) \o Expand(f, s, m, e + 1)
      ELSE IF c = Ch("\\") /\ n >= 49 /\ n <= 57 THEN Piece(s, m, n - 48) \o Expand(f, s, m, i + 2)
      ELSE IF c = Ch("\\") /\ n \in DOMAIN EscChar THEN <<EscChar[n]>> \o Expand(f, s, m, i + 2)
      ELSE IF c = Ch("\\") /\ n # -1 THEN <<n>> \o Expand(f, s, m, i + 2)
      ELSE <<c>> \o Expand(f, s, m, i + 1)
FormatModelled(f) ==
  \A i \in 1..Len(f) :
    /\ f[i] = Ch("\\") => (At(f, i + 1) \in DOMAIN EscChar \/ ~IsAlnum(At(f, i + 1)) \/ At(f, i+1) \in 49..57)
    /\ f[i] = Ch("$") =>
         LET n == At(f, i + 1)
         IN  \/ n = -1 \/ n = Ch("$") \/ n = Ch("&") \/ n = 32 \/ n >= 97 \/ (n >= 44 /\ n <= 46)
             \/ (IsDigit(n) /\ DigitsEnd(f, i + 1) <= i + 3)
             \/ (n = Ch("{") /\ LET e == DigitsEnd(f, i + 2) IN e > i + 2 /\ e < i + 5 /\ At(f, e) = Ch("}"))

RECURSIVE ReplaceFrom(_, _, _, _, _)
\* i: where the rest begins; nn: i if the last match was empty, else 0
ReplaceFrom(p, s, f, i, nn) ==
  LET m == SearchFrom(p, s, i, nn)
  IN  IF ~m.ok THEN SubSeq(s, i, Len(s))
      ELSE SubSeq(s, i, m.b - 1) \o Expand(f, s, m, 1)
           \o ReplaceFrom(p, s, f, m.e, IF m.e = m.b THEN m.e ELSE 0)
ReplaceAll_(p, s, f) == ReplaceFrom(p, s, f, 1, 0)
=============================================================================
