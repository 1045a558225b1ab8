----------------------------- MODULE GenTraits ------------------------------
(* Every structural and positional trait, plain and in :not(), on every short *)
(* list of siblings.                                                          *)
EXTENDS Gen
CONSTANTS ListLen, MaxA, MaxB
Kinds == {"d", "D", "p", "x", "y", "t", "c", "m"}
Member_(k, j) ==
  LET at == << <<B("i"), NatDigits(j)>> >>
  IN  CASE k = "d" -> El(B("div"), at, <<>>)
        [] k = "D" -> El(B("div"), at \o << <<B("b"), <<>> >> >>, <<Cm(<<>>), El(B("b"), <<>>, <<>>), Tx(B("t")), Tm(<<>>)>>)
        [] k = "p" -> El(B("span"), at, <<Tx(<<32>>)>>)
        [] k = "x" -> El(B("x-a"), at, <<>>)
        [] k = "y" -> El(B("x-b"), at \o << <<B("a"), <<>> >>, <<B("b"), <<>> >> >>, <<Cm(<<>>)>>)
        [] k = "t" -> Tx(B("t"))
        [] k = "c" -> Cm(B("c"))
        [] k = "m" -> Tm(<<El(B("b"), at, <<>>)>>)
ListSeq == TLCEval(SetToSeq({l \in UNION {[1..k -> Kinds] : k \in 1..ListLen} :
                               \A j \in 1..Len(l) : ~(l[j] = "t" /\ j > 1 /\ l[j-1] = "t")}))
Group_ == 20
ThePages ==
  LET ls == ListSeq
  IN  <<DocOf([g \in 1..((Len(ls) + Group_ - 1) \div Group_) |->
         El(B("article"), << <<B("i"), NatDigits(g)>> >>,
           LET lo == (g - 1) * Group_
               n == IF lo + Group_ > Len(ls) THEN Len(ls) - lo ELSE Group_
           IN  [q \in 1..n |-> El(B("section"), << <<B("i"), NatDigits(lo + q)>> >>,
                  [j \in 1..Len(ls[lo + q]) |-> Member_(ls[lo + q][j], j)])])])>>
Nths == <<"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type">>
Signed_(b) == IF b < 0 THEN IntDigits(b) ELSE <<43>> \o NatDigits(b)
Coef(a) == IntDigits(a) \o B("n")
Formula(a, b) == IF a = 0 THEN IntDigits(b) ELSE IF b = 0 THEN Coef(a) ELSE Coef(a) \o Signed_(b)
Plain == {B(s) : s \in {":first-child", ":last-child", ":first-of-type", ":last-of-type", ":only-child", ":only-of-type",
            ":empty", ":child-count(0)", ":child-count(1)", ":child-count(2)", ":attribute-count(0)", ":attribute-count(1)",
            ":attribute-count(2)", ":attribute-count(3)", ":nth-child(even)", ":nth-child(odd)", ":nth-last-of-type(odd)",
            ":nth-last-child(even)", ":nth-of-type(even)"}}
Traits == TLCEval(SetToSeq(Plain \union
   {B(":") \o B(Nths[k]) \o B("(") \o Formula(a, b) \o B(")") :
      k \in 1..4, a \in (0 - MaxA)..MaxA, b \in (0 - MaxB)..MaxB}))
TheTemplates ==
  LET ts == Traits
  IN  [j \in 1..(2 * Len(ts)) |->
         B("<*") \o (IF j % 2 = 0 THEN ts[(j + 1) \div 2] ELSE B(":not(") \o ts[(j + 1) \div 2] \o B(")")) \o B(" i:i/>")]
=============================================================================
