------------------------------- MODULE Parser -------------------------------
(* The template language: a machine that reads one byte at a time, together   *)
(* with the stacks of rules under construction and the error messages.        *)
(* Parse(src) =                                                               *)
(*   [out |-> "ok", rule |-> chain, dark |-> BOOLEAN]                         *)
(*   [out |-> "syntax", msg |-> bytes, dark |-> BOOLEAN]                      *)
(* A chain is a rule and its following siblings, as a sequence.  dark says    *)
(* that the text uses regular expressions outside of the modelled             *)
(* sublanguage: whether they are valid and what they match is not specified.  *)
(* Of a message that reports a bad regular expression, only the part before   *)
(* the regex library's own text is specified (re |-> TRUE).                   *)
EXTENDS Values

(* ---- error messages *)
IsPrint(c) == c >= 32 /\ c < 127
CharName(c) ==
  CASE c = 10 -> B("[newline]") [] c = 9 -> B("[tab]") [] c = 13 -> B("[carriage-return]")
    [] c = 32 -> B("[space]")   [] c = 0 -> B("[nullbyte]")
    [] IsPrint(c) -> <<c>>
    [] OTHER -> B("[ascii: ") \o IntDigits(IF c >= 128 THEN c - 256 ELSE c) \o <<93>>

Pad(n, w) == LET t == NatDigits(n) IN Repeat(SP, w - Len(t)) \o t
\* The lines of text s, numbered, numbers right-aligned
NumberedLines(s) ==
  LET ls == Split(s, NL)
      w == Len(NatDigits(Len(ls)))
  IN  Concat([k \in 1..Len(ls) |-> Pad(k, w) \o B(": ") \o ls[k] \o <<NL>>])

\* uc: one-based index of the offending byte; Len(src) + 1: the end
Location(src, uc, mark) ==
  LET before == SubSeq(src, 1, uc - 1)
      lines == Split(before, NL)
      line == Len(lines)
      col == Len(lines[line]) + 1
      atEnd == uc = Len(src) + 1
      shown == IF atEnd \/ src[uc] = NL THEN before ELSE SubSeq(src, 1, uc)
      m == IF mark < col THEN mark ELSE col
  IN  (IF atEnd THEN B("at end of input:")
       ELSE B("at line ") \o NatDigits(line) \o B(", char ") \o NatDigits(col) \o B(":"))
      \o <<NL, NL>> \o NumberedLines(shown)
      \o (IF mark = 0 \/ \E i \in 1..Len(src) : src[i] >= 128 THEN <<>>
          ELSE Repeat(SP, Len(NatDigits(line)) + 2 + col - m) \o Repeat(Ch("^"), m)
               \o B(" here") \o <<NL>>)

(* ---- the machine's state
   q      what is being read            i      index of the byte being read
   pend   structural action that takes effect when reading goes on
   st     stacks of chains              tok    word being read
   lit    literal being read            delim  its delimiter
   ctx    what the literal, regex or number is for
   fi     flag i was given              re     regex being read
   neg    <<>> or <<matches>> inside of :not(    nth  pattern being read
   sub    subject of a pattern: [f |-> "attr"|"fn", n |-> name]
   test   test of a pattern             ps     pipes      to  capture name
   opt    '?' was given                 dark   see above
   err    <<>> or <<error>>: [pre, uc, mark, re]                             *)
NoRe == [st |-> "ok", re |-> [t |-> "seq", a |-> <<>>], g |-> 0]
Init0 == [q |-> "main", pend |-> "", st |-> << <<>>, <<>> >>, tok |-> <<>>, lit |-> <<>>,
          delim |-> 0, ctx |-> "", fi |-> FALSE, re |-> NoRe, neg |-> <<>>, isneg |-> FALSE,
          nth |-> <<0, 0>>, sub |-> [f |-> "", n |-> <<>>], test |-> [t |-> "any"], ps |-> <<>>,
          to |-> <<>>, opt |-> FALSE, dark |-> FALSE, err |-> <<>>, i |-> 1]

Fail(s, pre, uc, mark) == [s EXCEPT !.err = <<[pre |-> pre, uc |-> uc, mark |-> mark, re |-> FALSE]>>]
FailHere(s, pre) == Fail(s, pre \o <<SP>>, s.i - 1, 1)
Unexpected(s, c) == Fail(s, B("Unexpected character '") \o CharName(c) \o B("' "), s.i, 1)
To(s, q) == [s EXCEPT !.q = q]

(* ---- stacks.  The last stack is the working stack: the rules whose tags    *)
(* are open.  The stack below it holds the finished chain.                    *)
Top(s) == s.st[Len(s.st)]
EmptyRule == Rule(AnyTag, <<>>, FALSE, FALSE, <<>>, <<>>, <<>>, <<>>)
PushRule(s) == [s EXCEPT !.st[Len(s.st)] = Append(@, <<EmptyRule>>)]
\* the innermost open rule
Cur(s) == LET t == Top(s) IN Head(t[Len(t)])
SetCur(s, r) == LET k == Len(s.st) t == s.st[k] IN [s EXCEPT !.st[k][Len(t)][1] = r]
AddMatch(s, m) == LET r == Cur(s) IN SetCur(s, [r EXCEPT !.ms = Append(@, m)])
AddTrait(s, m) == IF s.isneg THEN [s EXCEPT !.neg = Append(@, m), !.q = "trait-end"]
                  ELSE [AddMatch(s, m) EXCEPT !.q = "trait-end"]
DropLast(t) == SubSeq(t, 1, Len(t) - 1)

PopRule(s) ==
  LET k == Len(s.st)
      t == s.st[k]
      c == t[Len(t)]
  IN  IF Len(t) > 1
      THEN [s EXCEPT !.st[k] = LET u == DropLast(t) IN
              [u EXCEPT ![Len(u)][1].ch = @ \o c]]
      ELSE [s EXCEPT !.st[k] = <<>>,
                     !.st[k-1] = IF @ = <<>> THEN <<c>> ELSE [@ EXCEPT ![Len(@)] = @ \o c]]
PushNested(s) ==
  IF Top(s) = <<>> THEN FailHere(s, B("Nested rules must have a parent"))
  ELSE [s EXCEPT !.st = @ \o << <<>>, <<>> >>]
PopNested(s) ==
  LET k == Len(s.st)
  IN  IF Top(s) # <<>> THEN FailHere(s, B("Closing nested rule without open"))
      ELSE IF s.st[k-1] = <<>> THEN FailHere(s, B("Nested rules cannot be empty"))
      ELSE IF k = 2 THEN FailHere(s, B("Closing nested rule without open"))
      ELSE LET c == s.st[k-1][1]
               u == [s EXCEPT !.st = SubSeq(@, 1, k - 2)]
               r == Cur(u)
           IN  SetCur(u, [r EXCEPT !.ne = Append(@, c)])
Settle(s) ==   \* perform the pending action
  LET u == [s EXCEPT !.pend = ""]
  IN  CASE s.pend = "" -> s
        [] s.pend = "push" -> PushNested(u)
        [] s.pend = "pop" -> PopNested(u)
        [] s.pend = "end" -> PopRule(u)

(* ---- tags *)
SetTag(s, name) ==
  LET r == Cur(s)
  IN  IF name = AnyTag THEN s
      ELSE IF IsKnownTag(name) THEN SetCur(s, [r EXCEPT !.tag = Lower(name)])
      ELSE SetCur(s, [r EXCEPT !.tag = <<>>, !.name = <<name>>])
CloseTag(s, name) ==
  LET bad(exp) == Fail(s, B("Unexpected closing tag '</") \o name \o B(">'")
                       \o (IF exp = <<>> THEN <<>> ELSE B(", expected '</") \o exp \o B(">'")) \o <<SP>>,
                       s.i - 1, Len(name) + 2)
  IN  IF Top(s) = <<>> THEN bad(<<>>)
      ELSE LET r == Cur(s)
           IN  IF r.tag = <<>> THEN IF name = r.name[1] THEN To(PopRule(s), "main") ELSE bad(r.name[1])
               ELSE IF Lower(name) = r.tag THEN To(PopRule(s), "main") ELSE bad(r.tag)

(* ---- words with a fixed spelling *)
TraitWords == TLCEval({B(x) : x \in {
  "empty", "child-count(", "attribute-count(", "nth-child(", "nth-last-child(", "nth-of-type(",
  "nth-last-of-type(", "first-child", "first-of-type", "last-child", "last-of-type",
  "only-child", "only-of-type", "type-matches("}})
NotWord == B("not(")
BuiltinWords == TLCEval({B(x) : x \in {"text", "inner-html", "strip-tags"}})
EvenWord == B("even")
OddWord == B("odd")
Extends(tok, words) == \E w \in words : StartsWith(w, tok)

NthMatch(a, b, last, same) == [m |-> "nth", a |-> a, b |-> b, last |-> last, same |-> same]
\* a complete trait word
TraitWord(s, w) ==
  LET num(ctx) == [s EXCEPT !.q = "num0", !.ctx = ctx, !.tok = <<>>]
      nth(ctx) == [s EXCEPT !.q = "nth0", !.ctx = ctx, !.tok = <<>>]
  IN CASE w = B("empty") -> AddTrait(s, [m |-> "children", c |-> 0])
       [] w = B("child-count(") -> num("children")
       [] w = B("attribute-count(") -> num("attrs")
       [] w = B("nth-child(") -> nth("nth")
       [] w = B("nth-last-child(") -> nth("nth-last")
       [] w = B("nth-of-type(") -> nth("nth-type")
       [] w = B("nth-last-of-type(") -> nth("nth-last-type")
       [] w = B("first-child") -> AddTrait(s, NthMatch(0, 1, FALSE, FALSE))
       [] w = B("first-of-type") -> AddTrait(s, NthMatch(0, 1, FALSE, TRUE))
       [] w = B("last-child") -> AddTrait(s, NthMatch(0, 1, TRUE, FALSE))
       [] w = B("last-of-type") -> AddTrait(s, NthMatch(0, 1, TRUE, TRUE))
       [] w = B("only-child") -> AddTrait(s, [m |-> "only", same |-> FALSE])
       [] w = B("only-of-type") -> AddTrait(s, [m |-> "only", same |-> TRUE])
       [] w = B("type-matches(") -> [s EXCEPT !.q = "re0", !.ctx = "type"]
NthTrait(s) == AddTrait(s, NthMatch(s.nth[1], s.nth[2], s.ctx \in {"nth-last", "nth-last-type"},
                                    s.ctx \in {"nth-type", "nth-last-type"}))

\* the number in tok; [ok, n]
Number(tok) ==
  LET neg == Head(tok) = Ch("-")
      dig == IF neg \/ Head(tok) = Ch("+") THEN Tail(tok) ELSE tok
  IN  IF DigitsFitInt(dig, neg) THEN [ok |-> TRUE, n |-> DigitsValue(dig, neg)]
      ELSE [ok |-> FALSE, n |-> 0]
OutOfRange(s) == FailHere(s, B("Number out of range"))

(* ---- patterns *)
StartPattern(s, sub) ==
  [s EXCEPT !.sub = sub, !.test = [t |-> "any"], !.ps = <<>>, !.opt = FALSE, !.to = <<>>]
EndMatch(s) ==
  To(AddMatch(s, IF s.sub.f = "attr" THEN [m |-> "attr", n |-> s.sub.n, x |-> s.test]
                 ELSE [m |-> "fn", f |-> s.sub.n, x |-> s.test]), "sp")
EndCapture(s) ==
  LET r == Cur(s)
      u == SetCur(s, [r EXCEPT !.cs = Append(@,
             IF s.sub.f = "attr" THEN [c |-> "attr", n |-> s.sub.n, to |-> s.to, ps |-> s.ps]
             ELSE [c |-> "fn", f |-> s.sub.n, to |-> s.to, ps |-> s.ps])])
  IN  To(IF s.sub.f = "attr" /\ ~s.opt
         THEN AddMatch(u, [m |-> "attr", n |-> s.sub.n, x |-> [t |-> "any"]]) ELSE u, "sp")
AddPipe(s, p) == [s EXCEPT !.ps = Append(@, p), !.q = "cap-sep"]
DefaultTrim == <<SP>>
PlainPipe(w) ==
  CASE w = B("trim") -> <<[p |-> "trim", v |-> DefaultTrim]>>
    [] w = B("collapsews") -> <<[p |-> "collapsews"]>>
    [] w = B("tolower") -> <<[p |-> "tolower"]>>
    [] w = B("toupper") -> <<[p |-> "toupper"]>>
    [] OTHER -> <<>>
PipeArgs(s, w) ==
  CASE w = B("trim") -> [s EXCEPT !.q = "lit0", !.ctx = "trim"]
    [] w = B("prepend") -> [s EXCEPT !.q = "lit0", !.ctx = "prepend"]
    [] w = B("append") -> [s EXCEPT !.q = "lit0", !.ctx = "append"]
    [] w = B("filter") -> [s EXCEPT !.q = "re0", !.ctx = "filter"]
    [] w = B("replace") -> [s EXCEPT !.q = "re0", !.ctx = "replace"]
    [] OTHER -> Unexpected(s, Ch("("))

IsTagChar(c) == IsAlnum(c) \/ c = Ch("-") \/ c = Ch("_")
IsNameChar(c) == IsTagChar(c) \/ c = Ch(".")
IsQuote(c) == c = Ch("\"") \/ c = Ch("'")
EndsWithBackslash(t) == t # <<>> /\ t[Len(t)] = Ch("\\")

\* the bytes that may follow a complete pattern
PatternEnd(s, c) ==
  CASE IsHextSpace(c) -> To(s, "sp")
    [] c = Ch("/") -> To(s, "slash")
    [] c = Ch(">") -> To(s, "main")
IsPatternEnd(c) == IsHextSpace(c) \/ c = Ch("/") \/ c = Ch(">")
\* the bytes that may follow a tag name or a complete trait
AfterTrait(s, c) ==
  IF c = Ch(":") THEN [s EXCEPT !.q = "trait", !.tok = <<>>]
  ELSE IF IsPatternEnd(c) THEN PatternEnd(s, c)
  ELSE Unexpected(s, c)

\* behind a regular expression: which bytes may follow, and where they lead
AfterRegexOk(ctx, c) ==
  CASE ctx = "match" -> c = Ch("!") \/ IsPatternEnd(c)
    [] ctx \in {"type", "filter"} -> c = Ch(")")
    [] ctx = "replace" -> IsHextSpace(c) \/ c = Ch(",")
AfterRegex(s, c) ==
  CASE s.ctx = "match" ->
         LET u == [s EXCEPT !.test = [t |-> "re", re |-> s.re]]
         IN  IF c = Ch("!") THEN [u EXCEPT !.test = [t |-> "not", x |-> @], !.q = "negated"]
             ELSE PatternEnd(EndMatch(u), c)
    [] s.ctx = "type" -> AddTrait(s, [m |-> "type", re |-> s.re])
    [] s.ctx = "filter" -> AddPipe(s, [p |-> "filter", re |-> s.re])
    [] s.ctx = "replace" -> IF c = Ch(",") THEN [s EXCEPT !.q = "rep-lit"] ELSE To(s, "rep-comma")
CompleteRegex(s, c) ==
  LET r == RegexParse(s.lit, s.fi)
  IN  IF ~AfterRegexOk(s.ctx, c) THEN Unexpected(s, c)
      ELSE IF r.st = "bad"
           THEN [s EXCEPT !.err = <<[pre |-> B("In regular expression "), uc |-> s.i - 1,
                                     mark |-> s.i - s.to[1], re |-> TRUE]>>]
      ELSE AfterRegex([s EXCEPT !.re = IF r.st = "un" THEN NoRe ELSE r,
                                !.dark = @ \/ r.st = "un", !.to = <<>>], c)

\* behind a literal
AfterLiteral(s, c) ==
  CASE s.ctx \in {"words", "eq", "begins", "contains", "ends"} ->
         LET u == [s EXCEPT !.test = [t |-> s.ctx, v |-> s.lit]]
         IN  IF c = Ch("!") THEN [u EXCEPT !.test = [t |-> "not", x |-> @], !.q = "negated"]
             ELSE IF IsPatternEnd(c) THEN PatternEnd(EndMatch(u), c)
             ELSE Unexpected(s, c)
    [] s.ctx = "name" ->
         LET u == [s EXCEPT !.to = s.lit]
         IN  IF c = Ch("?") /\ s.sub.f = "attr" THEN [u EXCEPT !.opt = TRUE, !.q = "optional"]
             ELSE IF IsPatternEnd(c) THEN PatternEnd(EndCapture(u), c)
             ELSE Unexpected(s, c)
    [] s.ctx \in {"trim", "prepend", "append"} ->
         IF c = Ch(")") THEN AddPipe(s, [p |-> s.ctx, v |-> s.lit]) ELSE Unexpected(s, c)
    [] s.ctx = "replacement" ->
         IF c = Ch(")") THEN [AddPipe(s, [p |-> "replace", re |-> s.re, v |-> s.lit])
                                EXCEPT !.dark = @ \/ ~FormatModelled(s.lit)]
         ELSE Unexpected(s, c)

\* operators behind the subject of a match
Operator(s, c) ==
  IF c = Ch("=") THEN To(s, "op=")
  ELSE IF c = Ch("^") THEN [s EXCEPT !.q = "op?=", !.ctx = "begins"]
  ELSE IF c = Ch("*") THEN [s EXCEPT !.q = "op?=", !.ctx = "contains"]
  ELSE IF c = Ch("$") THEN [s EXCEPT !.q = "op?=", !.ctx = "ends"]
  ELSE IF c = Ch(":") THEN To(s, "cap0")
  ELSE Unexpected(s, c)
OpenLiteral(s, c, ctx) ==
  IF IsQuote(c) THEN [s EXCEPT !.q = "lit", !.delim = c, !.lit = <<>>, !.ctx = ctx]
  ELSE Unexpected(s, c)

(* ---- one byte *)
Step(s, c) ==
 CASE s.q = "main" ->
        IF ~(IsHextSpace(c) \/ c \in {Ch("#"), Ch("{"), Ch("}"), Ch("<")}) THEN Unexpected(s, c)
        ELSE LET u == Settle(s)
             IN  IF u.err # <<>> \/ IsHextSpace(c) THEN u
                 ELSE IF c = Ch("#") THEN To(u, "comment")
                 ELSE IF c = Ch("{") THEN [u EXCEPT !.pend = "push"]
                 ELSE IF c = Ch("}") THEN [u EXCEPT !.pend = "pop"]
                 ELSE To(u, "lt")
   [] s.q = "comment" -> IF c = NL THEN To(s, "main") ELSE s
   [] s.q = "lt" /\ c = Ch("/") -> To(s, "close0")
   [] s.q = "options" \/ (s.q = "lt" /\ c # Ch("/")) ->
        LET u == IF s.q = "lt" THEN PushRule(s) ELSE s
            r == Cur(u)
        IN  IF c = Ch("?") THEN To(SetCur(u, [r EXCEPT !.opt = TRUE]), "options")
            ELSE IF c = Ch("+") THEN To(SetCur(u, [r EXCEPT !.greedy = TRUE]), "options")
            ELSE IF c = Ch("*") THEN To(u, "trait-end")
            ELSE IF IsAlpha(c) THEN [u EXCEPT !.q = "tag", !.tok = <<c>>]
            ELSE Unexpected(s, c)
   [] s.q = "tag" -> IF IsTagChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
                     ELSE LET u == AfterTrait(SetTag(s, s.tok), c)
                          IN  IF u.err # <<>> THEN Unexpected(s, c) ELSE u
   [] s.q = "close0" ->
        IF c = Ch("*") THEN [s EXCEPT !.q = "close-any", !.tok = <<c>>]
        ELSE IF IsAlpha(c) THEN [s EXCEPT !.q = "close", !.tok = <<c>>]
        ELSE Unexpected(s, c)
   [] s.q \in {"close", "close-any"} ->
        IF c = Ch(">") THEN CloseTag(s, s.tok)
        ELSE IF s.q = "close" /\ IsTagChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE Unexpected(s, c)
   (* traits *)
   [] s.q = "trait" ->
        LET t == Append(s.tok, c)
        IN  IF t \in TraitWords THEN TraitWord(s, t)
            ELSE IF ~s.isneg /\ t = NotWord THEN [s EXCEPT !.isneg = TRUE, !.neg = <<>>, !.q = "not0"]
            ELSE IF Extends(t, IF s.isneg THEN TraitWords ELSE TraitWords \union {NotWord})
            THEN [s EXCEPT !.tok = t]
            ELSE Unexpected(s, c)
   [] s.q = "not0" -> IF c = Ch(":") THEN [s EXCEPT !.q = "trait", !.tok = <<>>] ELSE Unexpected(s, c)
   [] s.q = "trait-end" ->
        IF s.isneg
        THEN IF c = Ch(":") THEN [s EXCEPT !.q = "trait", !.tok = <<>>]
             ELSE IF c = Ch(")") THEN [AddMatch(s, [m |-> "not", ms |-> s.neg])
                                         EXCEPT !.isneg = FALSE, !.q = "trait-end"]
             ELSE Unexpected(s, c)
        ELSE AfterTrait(s, c)
   [] s.q = "num0" -> IF IsDigit(c) THEN [s EXCEPT !.q = "num", !.tok = <<c>>] ELSE Unexpected(s, c)
   [] s.q = "num" ->
        IF IsDigit(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE IF c # Ch(")") THEN Unexpected(s, c)
        ELSE IF ~Number(s.tok).ok THEN OutOfRange(s)
        ELSE AddTrait(s, [m |-> s.ctx, c |-> Number(s.tok).n])
   [] s.q = "nth0" ->
        IF c = Ch("e") \/ c = Ch("o") THEN [s EXCEPT !.q = "nth-word", !.tok = <<c>>]
        ELSE IF c = Ch("-") THEN [s EXCEPT !.q = "nth-sign", !.tok = <<c>>]
        ELSE IF IsDigit(c) THEN [s EXCEPT !.q = "nth-a", !.tok = <<c>>]
        ELSE Unexpected(s, c)
   [] s.q = "nth-word" ->
        LET t == Append(s.tok, c)
        IN  IF s.tok = EvenWord /\ c = Ch(")") THEN NthTrait([s EXCEPT !.nth = <<2, 0>>])
            ELSE IF s.tok = OddWord /\ c = Ch(")") THEN NthTrait([s EXCEPT !.nth = <<2, 1>>])
            ELSE IF Extends(t, {EvenWord, OddWord}) THEN [s EXCEPT !.tok = t]
            ELSE Unexpected(s, c)
   [] s.q = "nth-sign" ->
        IF IsDigit(c) THEN [s EXCEPT !.q = "nth-a", !.tok = Append(@, c)] ELSE Unexpected(s, c)
   [] s.q = "nth-a" ->
        IF IsDigit(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE IF c \notin {Ch("n"), Ch(")")} THEN Unexpected(s, c)
        ELSE IF ~Number(s.tok).ok THEN OutOfRange(s)
        ELSE IF c = Ch("n") THEN [s EXCEPT !.nth = <<Number(s.tok).n, 0>>, !.q = "nth-n"]
        ELSE NthTrait([s EXCEPT !.nth = <<0, Number(s.tok).n>>])
   [] s.q = "nth-n" ->
        IF c = Ch(")") THEN NthTrait(s)
        ELSE IF c = Ch("+") \/ c = Ch("-") THEN [s EXCEPT !.q = "nth-b0", !.tok = <<c>>]
        ELSE Unexpected(s, c)
   [] s.q = "nth-b0" ->
        IF IsDigit(c) THEN [s EXCEPT !.q = "nth-b", !.tok = Append(@, c)] ELSE Unexpected(s, c)
   [] s.q = "nth-b" ->
        IF IsDigit(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE IF c # Ch(")") THEN Unexpected(s, c)
        ELSE IF ~Number(s.tok).ok THEN OutOfRange(s)
        ELSE NthTrait([s EXCEPT !.nth[2] = Number(s.tok).n])
   (* patterns *)
   [] s.q = "sp" ->
        IF c = Ch("@") THEN [s EXCEPT !.q = "builtin", !.tok = <<>>]
        ELSE IF IsAlpha(c) THEN [s EXCEPT !.q = "attr", !.tok = <<c>>]
        ELSE IF IsPatternEnd(c) THEN PatternEnd(s, c)
        ELSE Unexpected(s, c)
   [] s.q = "slash" -> IF c = Ch(">") THEN [s EXCEPT !.q = "main", !.pend = "end"] ELSE Unexpected(s, c)
   [] s.q = "builtin" ->
        LET t == Append(s.tok, c)
        IN  IF t = B("text") THEN To(StartPattern(s, [f |-> "fn", n |-> "text"]), "subject")
            ELSE IF t = B("inner-html") THEN To(StartPattern(s, [f |-> "fn", n |-> "inner-html"]), "subject")
            ELSE IF t = B("strip-tags") THEN To(StartPattern(s, [f |-> "fn", n |-> "strip-tags"]), "subject")
            ELSE IF Extends(t, BuiltinWords) THEN [s EXCEPT !.tok = t]
            ELSE Unexpected(s, c)
   [] s.q = "subject" -> Operator(s, c)
   [] s.q = "attr" ->
        IF IsTagChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE LET u == StartPattern(s, [f |-> "attr", n |-> s.tok])
             IN  IF c = Ch("!") THEN [u EXCEPT !.test = [t |-> "not", x |-> [t |-> "any"]], !.q = "negated"]
                 ELSE IF IsPatternEnd(c) THEN PatternEnd(EndMatch(u), c)
                 ELSE Operator(u, c)
   [] s.q = "op?=" -> IF c = Ch("=") THEN To(s, "lit0") ELSE Unexpected(s, c)
   [] s.q = "op=" ->
        IF c = Ch("=") THEN [s EXCEPT !.q = "lit0", !.ctx = "eq"]
        ELSE IF c = Ch("~") THEN [s EXCEPT !.q = "re0", !.ctx = "match"]
        ELSE OpenLiteral(s, c, "words")
   [] s.q = "negated" -> IF IsPatternEnd(c) THEN PatternEnd(EndMatch(s), c) ELSE Unexpected(s, c)
   (* captures *)
   [] s.q = "cap0" ->
        IF IsNameChar(c) THEN [s EXCEPT !.q = "cap", !.tok = <<c>>]
        ELSE OpenLiteral(s, c, "name")
   [] s.q = "cap" ->
        IF IsNameChar(c) THEN [s EXCEPT !.tok = Append(@, c)]
        ELSE IF c = Ch(":")
             THEN LET p == PlainPipe(s.tok)
                  IN  IF p = <<>> THEN Unexpected(s, c) ELSE [s EXCEPT !.ps = @ \o p, !.q = "cap0"]
        ELSE IF c = Ch("(") THEN PipeArgs(s, s.tok)
        ELSE IF c = Ch("?") /\ s.sub.f = "attr"
             THEN [s EXCEPT !.to = s.tok, !.opt = TRUE, !.q = "optional"]
        ELSE IF IsPatternEnd(c) THEN PatternEnd(EndCapture([s EXCEPT !.to = s.tok]), c)
        ELSE Unexpected(s, c)
   [] s.q = "cap-sep" -> IF c = Ch(":") THEN To(s, "cap0") ELSE Unexpected(s, c)
   [] s.q = "optional" -> IF IsPatternEnd(c) THEN PatternEnd(EndCapture(s), c) ELSE Unexpected(s, c)
   [] s.q = "rep-comma" -> IF IsHextSpace(c) THEN s
                           ELSE IF c = Ch(",") THEN To(s, "rep-lit") ELSE Unexpected(s, c)
   [] s.q = "rep-lit" -> IF IsHextSpace(c) THEN s ELSE OpenLiteral(s, c, "replacement")
   (* literals and regular expressions *)
   [] s.q = "lit0" -> OpenLiteral(s, c, s.ctx)
   [] s.q = "lit" ->
        IF c = s.delim /\ ~EndsWithBackslash(s.lit) THEN To(s, "lit-end")
        ELSE [s EXCEPT !.lit = Append(@, c)]
   [] s.q = "lit-end" -> AfterLiteral(s, c)
   [] s.q = "re0" ->   \* to holds the index of the opening delimiter meanwhile
        IF IsQuote(c) \/ c = Ch("/")
        THEN [s EXCEPT !.q = "re", !.delim = c, !.lit = <<>>, !.fi = FALSE, !.to = <<s.i>>]
        ELSE Unexpected(s, c)
   [] s.q = "re" ->
        IF c = s.delim /\ ~EndsWithBackslash(s.lit) THEN To(s, "re-end")
        ELSE [s EXCEPT !.lit = Append(@, c)]
   [] s.q = "re-end" ->
        IF c = Ch("i") THEN [s EXCEPT !.fi = TRUE]
        ELSE IF c = Ch("c") THEN s
        ELSE CompleteRegex(s, c)

(* ---- the whole text *)
Finish(s, n) ==
  IF s.err # <<>> THEN s
  ELSE IF s.q # "main" THEN Fail(s, B("Premature termination "), n + 1, 1)
  ELSE LET u == Settle(s)
           IN  IF u.err # <<>> THEN u
           ELSE IF Len(u.st) > 2 THEN Fail(u, B("Unclosed nested rule "), n, 1)
           ELSE IF Top(u) # <<>>
                THEN LET r == Cur(u)
                     IN  Fail(u, B("Missing closing tag '</") \o (IF r.name # <<>> THEN r.name[1] ELSE r.tag)
                                 \o B(">' "), n + 1, 0)
           ELSE u

\* all of it, up to the first error
Run(s0, src) ==
  FoldLeft(LAMBDA s, c : IF s.err # <<>> THEN s
                         ELSE LET u == Step(s, c) IN IF u.err # <<>> THEN u ELSE [u EXCEPT !.i = @ + 1],
           s0, src)

DefaultChain == <<EmptyRule>>
Message(src, e) == e.pre \o Location(src, e.uc, e.mark) \o (IF e.re THEN <<NL>> \o B("Error: ") ELSE <<>>)

Outcome_(src, m) ==     \* m: the machine behind src
  LET s == TLCEval(Finish(m, Len(src)))
  IN  IF s.err # <<>>
      THEN [out |-> "syntax", msg |-> Message(src, s.err[1]), re |-> s.err[1].re, dark |-> s.dark]
      ELSE [out |-> "ok", dark |-> s.dark,
            rule |-> IF s.st[1] = <<>> THEN DefaultChain ELSE s.st[1][1]]
Parse(src) == Outcome_(src, Run(Init0, src))
\* Parse(pre \o suf) for each suf
ParseEach(pre, sufs) ==
  LET m == TLCEval(Run(Init0, pre))
  IN  TLCEval([k \in 1..Len(sufs) |-> Outcome_(pre \o sufs[k], Run(m, sufs[k]))])

(* ---- what closes the tags and braces that are open, between tags *)
CloseTags(s) ==     \* the open tags and braces
  LET one(t, k) == IF t = <<>> THEN <<>>
                   ELSE Concat([j \in 1..Len(t) |->
                     LET r == Head(t[Len(t) + 1 - j])
                     IN  B("</") \o (IF r.name # <<>> THEN r.name[1] ELSE r.tag) \o B(">")])
      \* stacks: finished, open, finished, open, ...; innermost last
      n == Len(s.st) \div 2
  IN  Concat([j \in 1..n |->
        LET k == 2 * (n - j + 1)
            empty == s.st[k] = <<>> /\ s.st[k-1] = <<>>
        IN  (IF j < n /\ empty THEN B("<a/>") ELSE <<>>)
            \o one(s.st[k], k) \o (IF j < n THEN B("}") ELSE <<>>)])
=============================================================================
