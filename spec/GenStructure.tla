---------------------------- MODULE GenStructure ----------------------------
(* The structure of templates: every sequence of tags, closing tags and       *)
(* braces up to a length, without any abstraction of the parser's stacks.     *)
(* For each: the rules that it means, or the message of the error.  Checked:  *)
(*   Balanced   an accepted text opens what it closes, and the denoted rules  *)
(*              have as many nodes and braces as the text                     *)
(*   Mended     an error at a token stays one when the rest of the text would  *)
(*              complete a template                                           *)
(*   Stays      an error does not go away by appending text, nor does its     *)
(*              place move                                                    *)
EXTENDS Session, Json
CONSTANTS MaxTokens, MaxExtra   \* extra: more tokens, if the text is deep
VARIABLES stoks, smac
stvars == <<stoks, smac>>

Tokens == TLCEval([k \in 1..15 |-> B(<<"<a>", "<X>", "<*>", "<a/>", "<?+*\n/>", "</a>", "</X>", "</x>", "</*>", "</A>", "{", "}", "#{\n", "</b>", "{<a/>}">>[k])])
Opening == {1, 2, 3}
Closings == {6, 7, 8, 9, 10, 14}
Src(ts) == Concat([i \in 1..Len(ts) |-> Tokens[ts[i]]])
Depth_(s) == (Len(s.st) \div 2 - 1) + FoldLeft(LAMBDA n, t : n + Len(t), 0, [k \in 1..Len(s.st) \div 2 |-> s.st[2 * k]])
Count(ts, S) == Len(SelectSeq(ts, LAMBDA t : t \in S))

StInit == stoks = <<>> /\ smac = Init0
\* a comment only where it says something new; no two in a row
StNext == \E t \in 1..Len(Tokens) :
  /\ Len(stoks) < MaxTokens + (IF Depth_(smac) > 2 THEN MaxExtra ELSE 0)
  /\ smac.err = <<>>
  /\ t = 13 => Len(stoks) < 3
  /\ stoks' = Append(stoks, t)
  /\ smac' = Run(smac, Tokens[t])
StSpec == StInit /\ [][StNext]_stvars

StView == stoks
Here == Outcome_(Src(stoks), smac)
RECURSIVE Rules_(_)
Rules_(c) == FoldLeft(LAMBDA n, r : n + 1 + Rules_(r.ch) + FoldLeft(LAMBDA m, q : m + Rules_(q), 0, r.ne), 0, c)
RECURSIVE Braces(_)
Braces(c) == FoldLeft(LAMBDA n, r : n + Braces(r.ch) + Len(r.ne) + FoldLeft(LAMBDA m, q : m + Braces(q), 0, r.ne), 0, c)
Say(src, x) == PrintT("STRUCT " \o ToJson([t |-> src, o |-> x.out, s |-> IF x.out = "ok" THEN Shape(x.rule) ELSE <<>>,
                                           m |-> IF x.out = "ok" THEN <<>> ELSE x.msg]))
Balanced == LET x == TLCEval(Here) IN
  /\ x.out = "ok" =>
       /\ Count(stoks, Opening) = Count(stoks, Closings)
       /\ Count(stoks, {11}) = Count(stoks, {12})
       /\ Count(stoks, {1, 2, 3, 4, 5}) > 0 =>
            /\ Rules_(x.rule) = Count(stoks, {1, 2, 3, 4, 5, 15})
            /\ Braces(x.rule) = Count(stoks, {11, 15})
  /\ Say(Src(stoks), x)
\* whatever is no error yet can be closed
Closable == smac.err = <<>> /\ Depth_(Settle(smac)) > 0 /\ Settle(smac).err = <<>> =>
  LET u == Settle(smac)
      src == Src(stoks) \o CloseTags(u)
      x == TLCEval(Parse(src))
  IN  /\ x.out = "ok"
      /\ Len(stoks) = MaxTokens + (IF Depth_(smac) > 2 THEN MaxExtra ELSE 0) => Say(src, x)
\* a text that must be rejected because of its last token, continued in the
\* ways in which it would be a template if that token were taken for another
Mended == LET m == Settle(smac) IN
  m.err # <<>> /\ stoks # <<>> =>
    LET ts == Front(stoks)
        t == Last(stoks)
        p == TLCEval(Settle(Run(Init0, Src(ts))))
        n == Len(p.st)
        tags == p.st[n] # <<>>
        q == IF tags THEN Settle(Run(p, LET r == Head(Last(p.st[n])) IN
                    B("</") \o (IF r.name # <<>> THEN r.name[1] ELSE r.tag) \o B(">")))
             ELSE p
        rests == {CloseTags(p)}
                 \cup (IF tags /\ t \in Closings THEN {CloseTags(q)} ELSE {})
                 \cup (IF t = 12 /\ n > 2 THEN {CloseTags([p EXCEPT !.st = SubSeq(@, 1, n - 2)])} ELSE {})
                 \cup (IF t = 11 THEN {B("<a/>}") \o CloseTags(p), B("<a/>}<a/>") \o CloseTags(p)} ELSE {})
    IN  p.err = <<>> =>
          \A rest \in rests : LET src == Src(stoks) \o rest
                                   x == TLCEval(Parse(src))
                               IN  x.out # "ok" /\ (rest # <<>> => Say(src, x))
Stays == [][smac.err # <<>> => smac'.err = smac.err]_stvars
=============================================================================
