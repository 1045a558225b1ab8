------------------------------ MODULE GenNodes ------------------------------
(* The builtin functions on every small tree of inline, block, void, custom   *)
(* and template elements, texts, whitespace and comments.                     *)
EXTENDS Gen
CONSTANTS Nodes
Leaf_ == {"br", "t", "u", "w", "c"}
Inner == {"span", "div", "x-a", "template"}
\* no escapes but for quotes: a backslash stays, a quote and the text after it too
Val == B("a b\\") \o <<34>> \o B(" '=/>")
\* trees with n nodes, and lists of trees with n nodes together
RECURSIVE Trees(_), Lists(_)
Mk_(k, ch) == CASE k = "br" -> El(B("br"), <<>>, <<>>)
               [] k = "t" -> Tx(B("t"))
               [] k = "u" -> Tx(<<32, 117, 10>>)
               [] k = "w" -> Tx(<<32, 9>>)
               [] k = "c" -> Cm(B("c "))
               [] k = "template" -> Tm(ch)
               [] OTHER -> El(B(k), IF k = "x-a" THEN << <<B("v"), Val>>, <<B("w"), <<>> >> >> ELSE <<>>, ch)
Trees(n) == (IF n = 1 THEN {Mk_(k, <<>>) : k \in Leaf_} ELSE {})
            \union {Mk_(k, l) : k \in Inner, l \in Lists(n - 1)}
IsTx(e) == e.k = "t"
Lists(n) == IF n = 0 THEN {<<>>}
            ELSE UNION {{<<t>> \o l : t \in Trees(k), l \in {q \in Lists(n - k) : TRUE}} : k \in 1..n}
RECURSIVE Fine(_)
Fine(l) == /\ \A j \in 2..Len(l) : ~(IsTx(l[j]) /\ IsTx(l[j-1]))
           /\ \A j \in 1..Len(l) : Fine(l[j].c)
All == TLCEval(SetToSeq({l \in UNION {Lists(k) : k \in 0..Nodes} : Fine(l)}))
PerPage == 400
ThePages ==
  LET all == All
  IN  TLCEval([p \in 1..((Len(all) + PerPage - 1) \div PerPage) |->
        LET n == (IF p * PerPage > Len(all) THEN Len(all) ELSE p * PerPage) - (p - 1) * PerPage
        IN  DocOf([q \in 1..n |-> El(B("section"), <<>>, all[(p - 1) * PerPage + q])])])
TheTemplates == <<B("<section @text:t @strip-tags:s @inner-html:h/>")>>
=============================================================================
