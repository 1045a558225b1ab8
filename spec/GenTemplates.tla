---------------------------- MODULE GenTemplates ----------------------------
(* All pairs of constructs, in one rule, in sibling rules, in a rule and its  *)
(* child and in a rule and a nested one, in all layouts by turns: each must   *)
(* be parsed into the rule that it denotes, whatever stands next to it.       *)
EXTENDS Gen, Render
CONSTANTS Every       \* only every so many combinations of pair and placement
At_(id, cl, ti) ==
  (IF id = "-" THEN <<>> ELSE << <<B("id"), B(id)>> >>) \o (IF cl = "-" THEN <<>> ELSE << <<B("class"), B(cl)>> >>)
  \o (IF ti = "-" THEN <<>> ELSE << <<B("title"), B(ti)>> >>)
S(id, cl, ti, ch) == El(B("span"), At_(id, cl, ti), ch)
X(id, cl, ti, ch) == El(B("x-a"), At_(id, cl, ti), ch)
B_ == El(B("b"), <<>>, <<Tx(B("t"))>>)
ThePages == << DocOf(<<
  El(B("div"), At_("1", "a", "Ab"), <<S("2", "b a", "xab", <<B_>>), S("3", "-", "-", <<>>), X("4", "", "b", <<Tx(B(" t "))>>),
                                      S("5", "ab", "AB", <<Cm(B("c"))>>)>>),
  Tx(<<10>>),
  El(B("div"), At_("6", "-", "b"), <<X("7", "a", "Aab", <<>>), X("8", "aba", "-", <<B_, Tx(B("u "))>>)>>),
  X("9", "b", "Ab", <<S("10", "a b", "ab", <<Tx(B("t"))>>)>>),
  El(B("div"), At_("-", "a", "A"), <<S("-", "-", "ab", <<B_, B_>>), S("11", "a", "-", <<Tx(B("T"))>>), B_>>) >>) >>

Pool == TraitPool \o PatternPool
NT == Len(TraitPool)
Id(k) == CapO(k[1], "id", k[2], <<>>)
IdOf == << <<"id:i?", "i">>, <<"id:j?", "j">> >>
R_(mod, tag, cs, id, ch, ne) ==
  [mod |-> mod, tag |-> tag, ts |-> SelectSeq(cs, LAMBDA c : c.x[1] = 58), ps |-> SelectSeq(cs, LAMBDA c : c.x[1] # 58) \o <<Id(IdOf[id])>>,
   ch |-> ch, ne |-> ne]
\* the order of the combinations is fixed: (first construct, second, placement)
Make(x, y, k) ==
  CASE k = 0 -> <<R_("", "*", <<x, y>>, 1, <<>>, <<>>)>>
    [] k = 1 -> <<R_("", "*", <<x>>, 1, <<>>, <<>>), R_("", "*", <<y>>, 2, <<>>, <<>>)>>
    [] k = 2 -> <<R_("", "div", <<x>>, 1, <<R_("", "*", <<y>>, 2, <<>>, <<>>)>>, <<>>)>>
    [] k = 3 -> <<R_("?+", "*", <<x>>, 1, <<>>, << <<R_("+", "*", <<y>>, 2, <<>>, <<>>)>> >>)>>
    [] k = 4 -> <<R_("?", "x-a", <<y>>, 1, <<>>, <<>>), R_("+", "span", <<x>>, 2, <<>>, <<>>)>>
    [] k = 5 -> <<R_("+", "div", <<y>>, 1, <<R_("+?", "span", <<x>>, 2, <<>>, <<>>), R_("", "X-A", <<>>, 2, <<>>, <<>>)>>,
                     << <<R_("?", "b", <<y>>, 2, <<>>, <<>>)>>, <<R_("?", "*", <<x>>, 1, <<>>, <<>>)>> >>)>>
Combos(n) == SetToSortSeq({j \in 0..(n * n * 6 - 1) : j % Every = 0}, <)
Ast(j, pool) == LET n == Len(pool)
                IN  Make(pool[((j \div 6) \div n) + 1], pool[((j \div 6) % n) + 1], j % 6)
LayOf(j) == Layouts[(j % 5) + 1]
TheTemplates ==
  LET pool == Pool
      js == Combos(Len(pool))
  IN  [k \in 1..Len(js) |-> Spell(Ast(js[k], pool), LayOf(k))]
\* every text means what it was made from
Faithful ==
  gcase[1] = 0 \/ LET j == (gcase[2] - 1) * Every IN Parse(TheTemplates_[gcase[2]]).rule = Denote(Ast(j, Pool))
=============================================================================
