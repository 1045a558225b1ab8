-------------------------------- MODULE Dom --------------------------------
(* A parsed HTML document: the sequence of its nodes in document order (node  *)
(* 1 is the root element, <html>).  A node is a record                        *)
(*   k   kind: "e" element, "p" template element, "t" text, "w" whitespace,   *)
(*       "d" CDATA, "c" comment                                               *)
(*   p   index of the parent, 0 for the root                                  *)
(*   ch  indices of the children, in order                                    *)
(*   n   element name: lower case if it is a standard name, else as written   *)
(*   u   TRUE iff the name is custom (not a standard name)                    *)
(*   at  attributes in order: [s |-> namespace 0..3, n |-> name, v |-> value] *)
(*   x   text of a text, whitespace, CDATA or comment node                    *)
(* How HTML text becomes such a tree is the HTML parser's business (Gumbo),   *)
(* which is trusted; see DESIGN.md.                                           *)
EXTENDS Tags

IsElem(d, n) == d[n].k = "e"

\* The sibling list that starts at n: n and its following siblings.
Children(d, n) == d[n].ch

Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

WellFormed(d) ==
  /\ Len(d) >= 1
  /\ d[1].p = 0 /\ d[1].k = "e"
  /\ \A n \in 2..Len(d) : d[n].p \in 1..(n-1)
  /\ \A n \in 1..Len(d) :
       /\ \A i \in 1..Len(d[n].ch) : d[d[n].ch[i]].p = n
       /\ \A i \in 2..Len(d[n].ch) : d[n].ch[i-1] < d[n].ch[i]
       /\ d[n].k \notin {"e", "p"} => d[n].ch = <<>>

\* Position of n among its siblings (one-based, all node kinds).
IndexOf(d, n) == LET s == d[d[n].p].ch IN CHOOSE i \in 1..Len(s) : s[i] = n

RECURSIVE Ancestors(_, _)
Ancestors(d, n) == IF d[n].p = 0 THEN {} ELSE {d[n].p} \union Ancestors(d, d[n].p)

\* The values of attribute `name` (any letter case): the first one counts.
AttrIndex(d, n, name) ==
  LET low == Lower(name)
      hit == {i \in 1..Len(d[n].at) : Lower(d[n].at[i].n) = low}
  IN  IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
HasAttr(d, n, name) == d[n].k = "e" /\ AttrIndex(d, n, name) # 0
AttrValue(d, n, name) == d[n].at[AttrIndex(d, n, name)].v

\* Two elements are of one type iff they have the same standard name, or both
\* have custom names.
TypeOf(d, n) == IF d[n].u THEN <<>> ELSE d[n].n
=============================================================================
