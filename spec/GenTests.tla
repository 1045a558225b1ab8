------------------------------ MODULE GenTests ------------------------------
(* Every value test on every value: all short literals against all short      *)
(* attribute values, plain and negated, and on elements without the attribute.*)
EXTENDS Gen
CONSTANTS ValueLen, LiteralLen
Letters == <<97, 65, 32, 9>>             \* a A space tab
Strings(n) == UNION {[1..k -> {Letters[i] : i \in 1..Len(Letters)}] : k \in 0..n}
ValueSeq == TLCEval(SetToSeq(Strings(ValueLen)))
A(n, v) == <<n, v>>
TheDoc ==
  LET vs == ValueSeq
  IN  DocOf(<<El(B("p"), <<>>,
        <<El(B("a"), << A(B("i"), B("none")) >>, <<>>)>> \o
        [j \in 1..Len(vs) |-> El(B("a"), << A(B("i"), NatDigits(j)), A(B("v"), vs[j]) >>, <<>>)])>>)
ThePages == <<TheDoc>>
Ops == <<B("="), B("=="), B("^="), B("*="), B("$=")>>
TheTemplates ==
  LET ls == SetToSeq(Strings(LiteralLen))
  IN  [j \in 1..(10 * Len(ls)) |->
         LET q == (j - 1) % 10
         IN  B("<a i:i v") \o Ops[(q % 5) + 1] \o <<34>> \o ls[((j - 1) \div 10) + 1] \o <<34>>
             \o (IF q >= 5 THEN B("!") ELSE <<>>) \o B("/>")]
=============================================================================
