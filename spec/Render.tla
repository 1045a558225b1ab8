------------------------------- MODULE Render -------------------------------
(* Templates from their meaning: an abstract template, the rule it denotes,   *)
(* and the texts that spell it, in several layouts.  Nothing here knows how   *)
(* templates are parsed; GenTemplates checks that the parser machine maps     *)
(* every text back to the rule (and replays the texts into the code).         *)
(*   construct  [x |-> text, ms |-> matches, cs |-> captures]; a double quote *)
(*              in x stands for either kind of quotes                         *)
(*   template   sequence of [mod, tag, ts, ps, ch, ne]: modifiers, name,      *)
(*              traits, patterns, child rules, sequence of nested templates   *)
(*   layout     [sep, fin, gap, self, q]: between the parts of a tag, before  *)
(*              its end, between tags, prefer self-closing tags, quote        *)
EXTENDS Values

Nth(a, b, last, same) == [m |-> "nth", a |-> a, b |-> b, last |-> last, same |-> same]
Con(x, ms, cs) == [x |-> B(x), ms |-> ms, cs |-> cs]
T_(x, m) == Con(x, <<m>>, <<>>)
AttrM(n, x) == [m |-> "attr", n |-> B(n), x |-> x]
FnM(f, x) == [m |-> "fn", f |-> f, x |-> x]
P_(x, m) == Con(x, <<m>>, <<>>)
Lit_(t, v) == [t |-> t, v |-> B(v)]
Neg(x) == [t |-> "not", x |-> x]
Re(src, ic) == [t |-> "re", re |-> RegexParse(B(src), ic)]
RE(src, ic) == RegexParse(B(src), ic)
\* captures
CapA(x, n, to, ps) == Con(x, <<AttrM(n, [t |-> "any"])>>, <<[c |-> "attr", n |-> B(n), to |-> B(to), ps |-> ps]>>)
CapO(x, n, to, ps) == Con(x, <<>>, <<[c |-> "attr", n |-> B(n), to |-> B(to), ps |-> ps]>>)
CapF(x, f, to, ps) == Con(x, <<>>, <<[c |-> "fn", f |-> f, to |-> B(to), ps |-> ps]>>)

TraitPool == <<
  T_(":empty", [m |-> "children", c |-> 0]),
  T_(":child-count(2)", [m |-> "children", c |-> 2]),
  T_(":attribute-count(3)", [m |-> "attrs", c |-> 3]),
  T_(":first-child", Nth(0, 1, FALSE, FALSE)),
  T_(":last-child", Nth(0, 1, TRUE, FALSE)),
  T_(":first-of-type", Nth(0, 1, FALSE, TRUE)),
  T_(":last-of-type", Nth(0, 1, TRUE, TRUE)),
  T_(":only-child", [m |-> "only", same |-> FALSE]),
  T_(":only-of-type", [m |-> "only", same |-> TRUE]),
  T_(":nth-child(2)", Nth(0, 2, FALSE, FALSE)),
  T_(":nth-child(2n+1)", Nth(2, 1, FALSE, FALSE)),
  T_(":nth-child(3n)", Nth(3, 0, FALSE, FALSE)),
  T_(":nth-child(-1n+3)", Nth(-1, 3, FALSE, FALSE)),
  T_(":nth-last-child(even)", Nth(2, 0, TRUE, FALSE)),
  T_(":nth-of-type(odd)", Nth(2, 1, FALSE, TRUE)),
  T_(":nth-last-of-type(2n-1)", Nth(2, -1, TRUE, TRUE)),
  T_(":type-matches(/A/i)", [m |-> "type", re |-> RE("A", TRUE)]),
  T_(":type-matches(/a/)", [m |-> "type", re |-> RE("a", FALSE)]),
  T_(":not(:first-child)", [m |-> "not", ms |-> <<Nth(0, 1, FALSE, FALSE)>>]),
  T_(":not(:empty:nth-child(2n))", [m |-> "not", ms |-> <<[m |-> "children", c |-> 0], Nth(2, 0, FALSE, FALSE)>>]) >>
PatternPool == <<
  P_("id", AttrM("id", [t |-> "any"])),
  P_("class!", AttrM("class", Neg([t |-> "any"]))),
  P_("class=\"a\"", AttrM("class", Lit_("words", "a"))),
  P_("class=\"b  a\"!", AttrM("class", Neg(Lit_("words", "b  a")))),
  P_("class==\"\"", AttrM("class", Lit_("eq", ""))),
  P_("title==\"Ab\"!", AttrM("title", Neg(Lit_("eq", "Ab")))),
  P_("title^=\"A\"", AttrM("title", Lit_("begins", "A"))),
  P_("class*=\"b\"", AttrM("class", Lit_("contains", "b"))),
  P_("title$=\"b\"!", AttrM("title", Neg(Lit_("ends", "b")))),
  P_("title=~/ab/i", AttrM("title", Re("ab", TRUE))),
  P_("title=~/ab/!", AttrM("title", Neg(Re("ab", FALSE)))),
  P_("TITLE=~/A/c", AttrM("TITLE", Re("A", FALSE))),
  P_("@text==\"t\"", FnM("text", Lit_("eq", "t"))),
  P_("@inner-html*=\"<b>\"!", FnM("inner-html", Neg(Lit_("contains", "<b>")))),
  P_("@strip-tags=~/^$/!", FnM("strip-tags", Neg(Re("^$", FALSE)))),
  CapA("id:n", "id", "n", <<>>),
  CapA("class:\"the name\"", "class", "the name", <<>>),
  CapO("title:m?", "title", "m", <<>>),
  CapO("class:trim(\"a\"):n?", "class", "n", <<[p |-> "trim", v |-> B("a")]>>),
  CapA("title:toupper:append(\"!\"):n", "title", "n", <<[p |-> "toupper"], [p |-> "append", v |-> B("!")]>>),
  CapO("title:filter(/(b)/i):o?", "title", "o", <<[p |-> "filter", re |-> RE("(b)", TRUE)]>>),
  CapO("class:replace(/a/ , \"(\\1)\"):o?", "class", "o", <<[p |-> "replace", re |-> RE("a", FALSE), v |-> B("(\\1)")]>>),
  CapF("@text:t", "text", "t", <<>>),
  CapF("@inner-html:tolower:n", "inner-html", "n", <<[p |-> "tolower"]>>),
  CapF("@strip-tags:collapsews:prepend(\"<\"):s", "strip-tags", "s", <<[p |-> "collapsews"], [p |-> "prepend", v |-> B("<")]>>) >>

\* ---- the rule that a template denotes
RECURSIVE Denote(_)
Part(f(_), cons) == FoldLeft(LAMBDA acc, c : acc \o f(c), <<>>, cons)
Denote(t) == [i \in 1..Len(t) |->
  LET r == t[i]
      all == r.ts \o r.ps
      base == IF B(r.tag) = AnyTag THEN Rule(AnyTag, <<>>, FALSE, FALSE, <<>>, <<>>, <<>>, <<>>)
              ELSE NamedRule(B(r.tag), FALSE, FALSE)
  IN  [base EXCEPT !.opt = r.mod \in {"?", "?+", "+?"}, !.greedy = r.mod \in {"+", "?+", "+?"},
         !.ms = Part(LAMBDA c : c.ms, all), !.cs = Part(LAMBDA c : c.cs, all),
         !.ch = Denote(r.ch), !.ne = [k \in 1..Len(r.ne) |-> Denote(r.ne[k])]]]

\* ---- the text that spells it
Quoted(x, q) == [i \in 1..Len(x) |-> IF x[i] = 34 THEN q ELSE x[i]]
RECURSIVE Spell(_, _)
Spell(t, l) == l.gap \o Concat([i \in 1..Len(t) |->
  LET r == t[i]
      head == <<60>> \o B(r.mod) \o B(r.tag)
              \o Concat([k \in 1..Len(r.ts) |-> Quoted(r.ts[k].x, l.q)])
              \o Concat([k \in 1..Len(r.ps) |-> l.sep \o Quoted(r.ps[k].x, l.q)])
              \o l.fin
      nested == Concat([k \in 1..Len(r.ne) |-> B("{") \o Spell(r.ne[k], l) \o B("}") \o l.gap])
      children == IF r.ch = <<>> THEN <<>> ELSE Spell(r.ch, l)
  IN  (IF r.ch = <<>> /\ r.ne = <<>> /\ l.self THEN head \o B("/>")
       ELSE head \o B(">") \o (IF l.nfirst THEN l.gap \o nested \o children ELSE children \o l.gap \o nested)
            \o B("</") \o B(r.tag) \o B(">"))
      \o l.gap])
Lay_(sep, fin, gap, self, q, nfirst) ==
  [sep |-> sep, fin |-> fin, gap |-> gap, self |-> self, q |-> q, nfirst |-> nfirst]
Layouts == <<
  Lay_(<<32>>, <<>>, <<>>, TRUE, 34, FALSE),
  Lay_(<<32, 32>>, <<32>>, <<32>>, FALSE, 39, TRUE),
  Lay_(<<10>>, <<9>>, <<10, 32>>, TRUE, 39, TRUE),
  Lay_(<<13, 10>>, <<>>, B("# <a \" ' {\n"), FALSE, 34, FALSE),
  Lay_(<<11, 12>>, <<10, 10>>, B("\n#\n\t#}\n"), TRUE, 34, TRUE) >>
=============================================================================
