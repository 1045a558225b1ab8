------------------------------ MODULE GenRegex ------------------------------
(* Every small regular expression -- two quantified terms in sequence, as     *)
(* alternatives, in groups, with back-references and lookahead -- on every    *)
(* short value: as a predicate, a filter and a replacement, with and without  *)
(* the flag.                                                                  *)
EXTENDS Gen
CONSTANTS ValueLen, Atoms, Quants, Flags
Letters == {97, 66, 32, 10}             \* a B space newline
TheDoc ==
  LET vs == SetToSeq(UNION {[1..k -> Letters] : k \in 0..ValueLen})
  IN  DocOf(<<El(B("p"), <<>>,
        [j \in 1..Len(vs) |-> El(B("a"), << <<B("i"), NatDigits(j)>>, <<B("v"), vs[j]>> >>, <<>>)])>>)
ThePages == <<TheDoc>>
AtomsFew == {"a", ".", "\\S"}
AtomsMany == {"a", "b", ".", "[^a]", "\\w", "\\S"}
Anchors == {"^", "$", "\\b", "\\B"}
Terms == {B(a) \o B(q) : a \in Atoms, q \in Quants} \union {B(a) : a \in Anchors}
Exprs(T) ==
  LET P == T \X T
  IN  {p[1] \o p[2] : p \in P}
      \union {p[1] \o B("|") \o p[2] : p \in P}
      \union {B("(") \o p[1] \o B(")") \o p[2] : p \in P}
      \union {B("(?:") \o p[1] \o p[2] \o B("){1,2}") : p \in P}
      \union {B("(") \o p[1] \o B("|") \o p[2] \o B(")a") : p \in P}
      \union {B("(") \o p[1] \o B(")") \o p[2] \o B("\\1") : p \in P}
      \union {B("(?=") \o p[1] \o B(")") \o p[2] : p \in P}
      \union {B("(?!") \o p[1] \o B(")(") \o p[2] \o B(")") : p \in P}
TheTemplates ==
  LET xs == SetToSeq({x \in Exprs(TLCEval(Terms)) : TRUE})
      fs == SetToSeq(Flags)
  IN  [j \in 1..(2 * Len(xs) * Len(fs)) |->
         LET x == xs[((j - 1) \div (2 * Len(fs))) + 1]
             f == B(fs[(((j - 1) \div 2) % Len(fs)) + 1])
         IN  IF j % 2 = 1 THEN B("<a i:i v=~/") \o x \o B("/") \o f \o B("/>")
             ELSE B("<a v:filter(/") \o x \o B("/") \o f \o B("):x v:replace(/") \o x \o B("/") \o f \o B(",'<$&-\\1>'):y/>")]
=============================================================================
