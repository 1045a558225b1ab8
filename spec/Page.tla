-------------------------------- MODULE Page --------------------------------
(* Documents built from nested descriptions of elements, and their HTML text. *)
(*   El(n, at, ch)   element: name, attributes << <<name, value>> >>, content *)
(*   Tx(x)           text          Cm(x)  comment        Tm(ch)  <template>   *)
(* Only such documents are built whose HTML text is parsed into themselves:   *)
(* no < in texts and no & anywhere, no adjacent texts, no elements in places *)
(* where HTML does not allow them.                                           *)
EXTENDS Text

El(n, at, ch) == [k |-> "e", n |-> n, at |-> at, x |-> <<>>, c |-> ch]
Tx(x)         == [k |-> "t", n |-> <<>>, at |-> <<>>, x |-> x, c |-> <<>>]
Cm(x)         == [k |-> "c", n |-> <<>>, at |-> <<>>, x |-> x, c |-> <<>>]
Tm(ch)        == [k |-> "p", n |-> B("template"), at |-> <<>>, x |-> <<>>, c |-> ch]

RECURSIVE Size(_)
Size(e) == 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, e.c)

\* the nodes of e, of which the first gets index i, below parent p
RECURSIVE Flat(_, _, _)
Flat(e, i, p) ==
  LET st == FoldLeft(LAMBDA acc, x :
                LET j == i + 1 + Len(acc.nodes)
                IN  [nodes |-> acc.nodes \o Flat(x, j, i), ch |-> Append(acc.ch, j)],
              [nodes |-> <<>>, ch |-> <<>>], e.c)
      space == e.k = "t" /\ \A j \in 1..Len(e.x) : IsHtmlSpace(e.x[j])
  IN  << [k |-> IF space THEN "w" ELSE e.k, p |-> p, ch |-> st.ch, n |-> e.n,
          u |-> e.k \in {"e", "p"} /\ ~IsKnownTag(e.n),
          at |-> [j \in 1..Len(e.at) |-> [s |-> 0, n |-> e.at[j][1], v |-> e.at[j][2]]],
          x |-> e.x] >> \o st.nodes

\* the whole document whose body has this content
DocOf(content) ==
  Flat(El(B("html"), <<>>, <<El(B("head"), <<>>, <<>>), El(B("body"), <<>>, content)>>), 1, 0)
BodyNode == 3
HtmlOf(d) == B("<!DOCTYPE html><html><head></head><body>") \o InnerHtml(d, BodyNode) \o B("</body></html>")
=============================================================================
