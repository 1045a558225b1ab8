-------------------------------- MODULE Text -------------------------------
(* The builtin functions of a node: @text, @strip-tags and @inner-html.       *)
EXTENDS Dom

\* All text at and below n in document order; `wrap` puts a separator before
\* and after every block-level element below n.
RECURSIVE TextBelow(_, _, _)
TextBelow(d, n, wrap) ==
  IF d[n].k \in {"t", "w"} THEN d[n].x
  ELSE IF d[n].k # "e" THEN <<>>     \* comments, CDATA, template contents
  ELSE FoldLeft(LAMBDA acc, c :
         LET t == TextBelow(d, c, wrap)
         IN  IF wrap /\ d[c].k = "e" /\ ~(~d[c].u /\ d[c].n \in InlineTags)
             THEN acc \o <<NL>> \o t \o <<NL>>
             ELSE acc \o t,
         <<>>, d[n].ch)

StripTags(d, n) == TextBelow(d, n, FALSE)
NodeText(d, n)  == CollapseWs(TextBelow(d, n, TRUE))

\* An attribute value in double quotes; there are no escapes but for quotes.
QuotedValue(v) ==
  <<34>> \o FoldLeft(LAMBDA a, c : IF c = 34 THEN a \o B("&quot;") ELSE Append(a, c),
                     <<>>, v) \o <<34>>
NsPrefix(s) == CASE s = 0 -> <<>> [] s = 1 -> B("xlink:") [] s = 2 -> B("xml:") [] s = 3 -> B("xmlns:")

RECURSIVE Serialize(_, _)
Serialize(d, n) ==
  CASE d[n].k \in {"t", "w"} -> d[n].x
    [] d[n].k = "c" -> B("<!--") \o d[n].x \o B("-->")
    [] d[n].k = "d" -> <<>>
    [] OTHER ->
        LET attrs == FoldLeft(LAMBDA acc, a :
                        acc \o <<SP>> \o NsPrefix(a.s) \o a.n \o <<61>> \o QuotedValue(a.v),
                        <<>>, d[n].at)
        IN  IF ~d[n].u /\ d[n].n \in VoidTags
            THEN <<60>> \o d[n].n \o attrs \o B("/>")
            ELSE <<60>> \o d[n].n \o attrs \o <<62>>
                 \o FoldLeft(LAMBDA acc, c : acc \o Serialize(d, c), <<>>, d[n].ch)
                 \o B("</") \o d[n].n \o <<62>>

InnerHtml(d, n) ==
  IF d[n].k # "e" THEN <<>>
  ELSE FoldLeft(LAMBDA acc, c : acc \o Serialize(d, c), <<>>, d[n].ch)

Builtin(d, n, name) ==
  CASE name = "text" -> NodeText(d, n)
    [] name = "inner-html" -> InnerHtml(d, n)
    [] name = "strip-tags" -> StripTags(d, n)

(* ---- what these functions guarantee, stated independently of how they are  *)
(* ---- computed (checked on every document the model sees)                   *)
RECURSIVE Visible(_, _)
\* n's text is visible: n is text and no ancestor is a template element
Visible(d, n) == d[n].p = 0 \/ (d[d[n].p].k = "e" /\ Visible(d, d[n].p))
\* descendants-or-self of n that are text, in document order
TextNodes(d, n) ==
  SetToSortSeq({m \in n..Len(d) : d[m].k \in {"t", "w"} /\ Visible(d, m)
                                   /\ (m = n \/ n \in Ancestors(d, m))}, <)
NonSpace(s) == SelectSeq(s, LAMBDA c : ~IsHtmlSpace(c))

TextLaws(d, n) ==
  LET st == StripTags(d, n)
      tx == NodeText(d, n)
      tn == TextNodes(d, n)
  IN  d[n].k \in {"e", "t", "w"} =>
      /\ st = Concat([i \in 1..Len(tn) |-> d[tn[i]].x])
      \* no character is added, lost or reordered, except whitespace
      /\ NonSpace(tx) = NonSpace(st)
      \* normalised: no space at the ends, never two in a row, no other space
      /\ \A i \in 1..Len(tx) : IsHtmlSpace(tx[i]) =>
            tx[i] = SP /\ i > 1 /\ i < Len(tx) /\ tx[i-1] # SP
      /\ CollapseWs(tx) = tx
=============================================================================
