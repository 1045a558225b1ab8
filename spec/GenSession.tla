----------------------------- MODULE GenSession -----------------------------
(* All short histories of a program that builds, copies, moves, combines,     *)
(* changes and destroys two rules, and what can be seen of the rules at the   *)
(* end of each: their structure and what they extract from a document.        *)
(*   "PAGE " [p |-> 1, h |-> HTML text]                                       *)
(*   "HIST " [h |-> commands, x |-> <<[r |-> slot, s |-> shape, g |-> groups]>>] *)
EXTENDS Session, Page, Json
CONSTANTS Depth, MaxRules
VARIABLES hst, sst
svars == <<hst, sst>>

TheDoc == DocOf(<<
  El(B("div"), << <<B("id"), B("1")>> >>, <<El(B("span"), << <<B("id"), B("2")>> >>, <<>>),
                                            El(B("div"), << <<B("id"), B("3")>> >>, <<El(B("span"), << <<B("id"), B("4")>> >>, <<>>)>>)>>),
  El(B("span"), << <<B("id"), B("5")>> >>, <<El(B("div"), << <<B("id"), B("6")>> >>, <<>>)>>),
  El(B("span"), << <<B("id"), B("7")>> >>, <<>>) >>)

Slots == {1, 2}
NewRule(r) == <<[op |-> "rule", r |-> r, by |-> "tag", tag |-> IF r = 1 THEN B("div") ELSE B("span"), opt |-> FALSE, greedy |-> FALSE],
                [op |-> "add-capture", r |-> r, path |-> <<1>>,
                 v |-> [c |-> "attr", n |-> B("id"), to |-> IF r = 1 THEN B("a") ELSE B("b"), ps |-> <<>>]]>>
Prefix_ == NewRule(1) \o NewRule(2)
RECURSIVE Rules(_), Paths(_, _)
Rules(c) == FoldLeft(LAMBDA a, r : a + 1 + Rules(r.ch) + FoldLeft(LAMBDA b, q : b + Rules(q), 0, r.ne), 0, c)
\* the paths of all rules of a chain
Paths(c, pre) == UNION {{pre \o <<i>>} \union Paths(c[i].ch, pre \o <<i, 0>>)
                          \union UNION {Paths(c[i].ne[k], pre \o <<i, k>>) : k \in 1..Len(c[i].ne)} : i \in 1..Len(c)}
Ends(c) == {p \in Paths(c, <<>>) : Len(p) = 1 \/ Len(p) = 3}
Ops(S) ==
  LET D == DOMAIN S.rules
      size(r) == Rules(S.rules[r].c)
      P(r) == Ends(S.rules[r].c)
  IN  UNION {{[op |-> "append", r |-> r, path |-> p, from |-> f, how |-> h, move |-> m] :
               p \in P(r), f \in {x \in D : size(x) + size(r) <= MaxRules}, h \in {"child", "next", "nested"}, m \in BOOLEAN} : r \in D}
      \union UNION {{[op |-> "copy", r |-> t, from |-> r, path |-> p, how |-> h] : t \in Slots, p \in P(r), h \in {"construct", "assign"}} : r \in D}
      \union {[op |-> "move", r |-> t, from |-> r, how |-> h] : t \in Slots, r \in D, h \in {"construct", "assign"}}
      \union {[op |-> "free", r |-> r] : r \in D}
      \union UNION {{[op |-> o, r |-> r, path |-> p, v |-> TRUE] : o \in {"set-optional", "set-greedy"}, p \in P(r)} : r \in D}
      \union {[op |-> "set-tag", r |-> r, path |-> <<1>>, v |-> B("*")] : r \in D}
      \union {[op |-> "set-tagname", r |-> r, path |-> <<1>>, v |-> B("x-a")] : r \in D}
      \union {[op |-> "add-match", r |-> r, path |-> <<1>>, v |-> [m |-> "nth", a |-> 0, b |-> 1, last |-> TRUE, same |-> FALSE]] : r \in D}
\* what the driver cannot be asked to do: append or assign by moving from itself
Sensible(S, e) ==
  /\ e.op = "append" => ~(e.move /\ e.r = e.from)
  /\ e.op = "move" => e.r # e.from
SRun(S, es) == FoldLeft(LAMBDA s, e : Do(s, e).s, S, es)
SInit == /\ TLCSet(103, TheDoc)
         /\ PrintT("PAGE " \o ToJson([p |-> 1, h |-> HtmlOf(TheDoc)]))
         /\ hst = <<>> /\ sst = SRun(Start, Prefix_)
SNext == /\ Len(hst) < Depth
         /\ \E e \in {x \in Ops(sst) : Sensible(sst, x)} : hst' = Append(hst, e) /\ sst' = Do(sst, e).s
SSpec == SInit /\ [][SNext]_svars
Seen == [k \in 1..Cardinality(DOMAIN sst.rules) |->
          LET r == SetToSortSeq(DOMAIN sst.rules, <)[k]
          IN  [r |-> r, s |-> Shape(sst.rules[r].c), g |-> ExtractAt(TLCGet(103), sst.rules[r].c, 1, 0).groups]]
Emit == IF Len(hst) < Depth THEN TRUE ELSE PrintT("HIST " \o ToJson([h |-> Prefix_ \o hst, x |-> Seen]))

\* ---- copies are independent values: a command changes the slots it names, no others
Touched(e) == CASE e.op = "append" -> {e.r} \union (IF e.move THEN {e.from} ELSE {})
                [] e.op = "move" -> {e.r, e.from}
                [] OTHER -> {e.r}
Frame == [][LET e == hst'[Len(hst')]
            IN  /\ \A r \in (DOMAIN sst.rules \union DOMAIN sst'.rules) \ Touched(e) :
                      r \in DOMAIN sst.rules /\ r \in DOMAIN sst'.rules /\ sst'.rules[r] = sst.rules[r]
                \* a copy equals its source
                /\ (e.op = "copy" /\ Len(e.path) = 1 /\ e.path[1] = 1) => sst'.rules[e.r] = sst.rules[e.from]
                \* moving transfers the value
                /\ e.op = "move" => sst'.rules[e.r] = sst.rules[e.from] /\ e.from \notin DOMAIN sst'.rules]_svars
=============================================================================
