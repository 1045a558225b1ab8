------------------------------ MODULE GenParser -----------------------------
(* Explores the parser machine breadth first over an alphabet that has every  *)
(* byte the language knows and one of each kind of byte that it does not      *)
(* know, and up to an abstraction of its state (View_).  Checked:             *)
(*   Viable    whatever has been read without error can be completed to a     *)
(*             valid template; so an error is reported at the first byte at   *)
(*             which the input stops being extendable, and not before or      *)
(*             behind it                                                      *)
(*   Sound     the stacks describe the open tags and braces                   *)
(* Every state found is printed with the shortest text that leads to it, a    *)
(* text that completes it, and the same for every byte that may follow: a     *)
(* transition tour of the language.                                           *)
EXTENDS Parser, Json, TLC
CONSTANT MaxOpen        \* open tags, altogether, and open braces
VARIABLES mac, acc
gpvars == <<mac, acc>>

Bytes_ == {Ch(c) : c \in {"<", ">", "/", "{", "}", "#", "?", "+", "*", " ", ":", "(", ")", "!", "=", "^", "$", "~", "@", ",",
                          "\"", "'", "\\", ".", "-", "_", "0", "1", "2", "X",
                          "a", "b", "c", "d", "e", "f", "g", "h", "i", "k", "l", "m", "n", "o", "p", "r", "s", "t",
                          "u", "v", "w", "x", "y"}} \union {10, 0, 200}

(* ---- completion *)
\* the rest of the word tok, of a set of words
\* the rest of the word tok, of a set of words
Rest(tok, words) == LET w == CHOOSE v \in words : StartsWith(v, tok) IN SubSeq(w, Len(tok) + 1, Len(w))
CloseLit(s) == (IF EndsWithBackslash(s.lit) THEN <<s.delim>> ELSE <<>>) \o <<s.delim>>
\* what makes the regular expression being read valid
CloseRe(s) == IF EndsWithBackslash(s.lit) THEN <<s.delim>> ELSE <<>>
BehindLit(ctx) == IF ctx \in {"trim", "prepend", "append", "replacement"} THEN B(")") ELSE <<>>
CapName(ctx) == IF ctx \in {"trim", "prepend", "append", "replacement", "filter"} THEN B(":x") ELSE <<>>
TraitEnd(s) == IF s.isneg THEN B(")") ELSE <<>>
OfRegex(s) == CASE s.ctx = "match" -> B("/>") [] s.ctx = "type" -> B(")") \o TraitEnd(s) \o B("/>")
                [] s.ctx = "filter" -> B("):x/>") [] s.ctx = "replace" -> B(",''):x/>")
TraitRest(w, s) == LET p == w IN
  CASE p \in {B("child-count("), B("attribute-count("), B("nth-child("), B("nth-last-child("), B("nth-of-type("),
              B("nth-last-of-type(")} -> B("1)")
    [] p = B("type-matches(") -> B("/a/)")
    [] p = NotWord -> B(":empty)")
    [] OTHER -> <<>>
Inside(s) ==    \* up to the end of the tag being read
  CASE s.q = "main" -> <<>>
    [] s.q = "comment" -> <<NL>>
    [] s.q = "lt" -> B("a/>")
    [] s.q = "options" -> B("a/>")
    [] s.q = "tag" -> B("/>")
    [] s.q = "trait" -> LET ws == IF s.isneg THEN TraitWords ELSE TraitWords \union {NotWord}
                            w == CHOOSE v \in ws : StartsWith(v, s.tok)
                        IN  SubSeq(w, Len(s.tok) + 1, Len(w)) \o TraitRest(w, s) \o TraitEnd(s) \o B("/>")
    [] s.q = "not0" -> B(":empty)/>")
    [] s.q = "trait-end" -> TraitEnd(s) \o B("/>")
    [] s.q = "num0" -> B("1)") \o TraitEnd(s) \o B("/>")
    [] s.q = "num" -> B(")") \o TraitEnd(s) \o B("/>")
    [] s.q \in {"nth0", "nth-sign", "nth-b0"} -> B("1)") \o TraitEnd(s) \o B("/>")
    [] s.q = "nth-word" -> Rest(s.tok, {EvenWord, OddWord}) \o B(")") \o TraitEnd(s) \o B("/>")
    [] s.q \in {"nth-a", "nth-n", "nth-b"} -> B(")") \o TraitEnd(s) \o B("/>")
    [] s.q = "sp" -> B("/>")
    [] s.q = "slash" -> B(">")
    [] s.q = "builtin" -> Rest(s.tok, BuiltinWords) \o B("=''/>")
    [] s.q = "subject" -> B("=''/>")
    [] s.q = "attr" -> B("/>")
    [] s.q = "op?=" -> B("=''/>")
    [] s.q = "op=" -> B("''/>")
    [] s.q = "negated" -> B("/>")
    [] s.q = "cap0" -> B("x/>")
    [] s.q = "cap" -> B("/>")
    [] s.q = "cap-sep" -> B(":x/>")
    [] s.q = "optional" -> B("/>")
    [] s.q = "rep-comma" -> B(",''):x/>")
    [] s.q = "rep-lit" -> B("''):x/>")
    [] s.q = "lit0" -> B("''") \o BehindLit(s.ctx) \o CapName(s.ctx) \o B("/>")
    [] s.q = "lit" -> CloseLit(s) \o BehindLit(s.ctx) \o CapName(s.ctx) \o B("/>")
    [] s.q = "lit-end" -> BehindLit(s.ctx) \o CapName(s.ctx) \o B("/>")
    [] s.q = "re0" -> B("/a/") \o OfRegex(s)
    [] s.q = "re" -> CloseRe(s) \o <<s.delim>> \o OfRegex(s)
    [] s.q = "re-end" -> OfRegex(s)
\* closing tags being read
Closing(s) ==
  LET r == Cur(s)
      n == IF r.name # <<>> THEN r.name[1] ELSE r.tag
  IN  (IF s.q = "close0" THEN n ELSE SubSeq(n, Len(s.tok) + 1, Len(n))) \o B(">")
Close(s) ==
  IF s.q \in {"close0", "close", "close-any"}
  THEN Closing(s) \o CloseTags([s EXCEPT !.st[Len(s.st)] = DropLast(@)])
  ELSE LET u == Settle(s)
           head == Inside(s)
           \* the tag being read has been pushed already, except before "<" has been followed
           open == IF s.q \notin {"main", "comment", "lt"} THEN [u EXCEPT !.st[Len(u.st)] = DropLast(@), !.st[Len(u.st) - 1] = <<1>>]
                   ELSE IF s.q = "lt" THEN [u EXCEPT !.st[Len(u.st) - 1] = <<1>>] ELSE u
       IN  head \o CloseTags(open)
ExpectedTag(s) == LET r == Cur(s) IN IF r.name # <<>> THEN r.name[1] ELSE r.tag
\* can it be completed at all?  Not with a closing tag that does not fit
Fits(s) ==
  IF s.q \in {"close0", "close", "close-any"}
  THEN /\ Top(s) # <<>>
       /\ LET r == Cur(s) n == IF r.name # <<>> THEN r.name[1] ELSE r.tag
          IN  s.q = "close0" \/ IF r.name # <<>> THEN StartsWith(n, s.tok) ELSE StartsWith(n, Lower(s.tok))
  ELSE Settle(s).err = <<>>
OpenTags(s) == FoldLeft(LAMBDA n, t : n + Len(t), 0, [k \in 1..Len(s.st) \div 2 |-> s.st[2 * k]])

(* ---- the abstraction *)
\* names of every kind
NamePipes == {B(x) : x \in {"trim", "collapsews", "tolower", "toupper", "prepend", "append", "filter", "replace"}}
TokView(s) ==
  CASE s.q \in {"trait", "builtin", "nth-word"} -> s.tok
    [] s.q \in {"close", "close-any"} ->      \* fits so far, fits, does not fit
         IF Fits(s) THEN s.tok ELSE IF Top(s) = <<>> THEN <<1>> ELSE <<2, Len(s.tok) > Len(ExpectedTag(s))>>
    [] s.q = "cap" -> IF Extends(s.tok, NamePipes) THEN s.tok ELSE <<>>
    [] s.q = "tag" -> IF IsKnownTag(s.tok) THEN <<1>> ELSE <<2>>
    [] s.q \in {"num", "nth-a", "nth-b"} -> <<IF Len(s.tok) > 1 THEN 2 ELSE 1>>
    [] OTHER -> <<>>
Ctx(s) == IF s.q \in {"num0", "num", "nth0", "nth-word", "nth-sign", "nth-a", "nth-n", "nth-b0", "nth-b", "op?=", "lit0", "lit",
                      "lit-end", "re0", "re", "re-end"} THEN s.ctx ELSE ""
\* what the literal ends with; a regular expression in full, as far as its validity matters
LitView(s) == IF s.q \in {"lit", "re"} THEN <<s.delim, EndsWithBackslash(s.lit), Len(s.lit) > 0>>
              ELSE IF s.q = "re-end" THEN <<RegexParse(s.lit, FALSE).st, s.fi>> ELSE <<>>
RuleView(r) == <<r.tag, r.name, r.opt, r.greedy>>
StackView(s) == [k \in 1..Len(s.st) |-> IF k % 2 = 1 THEN <<s.st[k] # <<>>>>
                                       ELSE [j \in 1..Len(s.st[k]) |-> <<Head(s.st[k][j]).tag, Head(s.st[k][j]).name>>]]
SubView(s) == IF s.q \in {"subject", "op?=", "op=", "cap0", "cap", "cap-sep", "lit", "lit-end", "lit0"} THEN s.sub.f ELSE ""
View_ == <<mac.q, mac.pend, mac.isneg, mac.isneg /\ mac.neg # <<>>, TokView(mac), Ctx(mac), LitView(mac), StackView(mac), SubView(mac)>>
\* outside of tags all is explored; inside of tags the depth does not matter
Bound(s) ==
  /\ Len(s.st) \div 2 - 1 + OpenTags(s) <= MaxOpen + (IF s.q \in {"main", "lt", "comment", "options", "tag"} THEN 1 ELSE 0)
  /\ s.q \notin {"main", "lt", "comment", "options", "tag", "close0", "close", "close-any", "slash", "sp"} => OpenTags(s) = 1 /\ Len(s.st) = 2
  /\ \A k \in 1..Len(s.st) : k % 2 = 0 => \A j \in 1..Len(s.st[k]) :
       LET r == Head(s.st[k][j]) IN r.tag \in {AnyTag, B("a"), <<>>} /\ (r.name # <<>> => r.name[1] = B("X"))

GInit == mac = Init0 /\ acc = <<>>
GNext == \E c \in Bytes_ :
  LET s == Step(mac, c)
      u == [s EXCEPT !.i = @ + 1]
  IN  /\ s.err = <<>>
      /\ Bound(u)
      /\ mac' = u
      /\ acc' = Append(acc, c)
GSpec == GInit /\ [][GNext]_gpvars

Viable == Fits(mac) =>
  LET x == Parse(acc \o Close(mac)) IN x.out = "ok" \/ (PrintT(<<mac.q, acc, Close(mac), x>>) /\ FALSE)
Sound == Len(mac.st) % 2 = 0 /\ mac.i = Len(acc) + 1
\* the regular expression being read, completed, is not known to be valid
Open_(s) == /\ s.q \in {"re", "re-end"}
            /\ RegexParse(s.lit \o (IF s.q = "re" THEN CloseRe(s) ELSE <<>>), s.fi).st # "ok"
\* every byte: which can follow, and what completes the text then
Follow(s) == TLCEval([c \in 0..255 |->
  LET u == Step(s, c)
      v == [u EXCEPT !.i = @ + 1]
  IN  IF u.err # <<>> \/ ~Fits(v) THEN << >> ELSE <<Close(v)>>])
Emit == LET f == Follow(mac)
            skip == IF mac.q \in {"re", "re-end", "re0"} THEN {c \in 0..255 : f[c] # <<>> /\ Open_(Step(mac, c))} ELSE {}
            good == {c \in 0..255 : f[c] # <<>>} \ skip
        IN  PrintT("GEN " \o ToJson([p |-> acc, c |-> IF Fits(mac) THEN <<Close(mac)>> ELSE <<>>,
                     skip |-> skip,
                     good |-> {[c |-> x, b |-> {c \in good : f[c][1] = x}] : x \in {f[c][1] : c \in good}}]))
Inv == Viable /\ Sound /\ Emit
=============================================================================
