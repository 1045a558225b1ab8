------------------------------ MODULE GenPipes ------------------------------
(* Every short chain of pipes on every short value, of an attribute and of    *)
(* the text of an element.                                                    *)
EXTENDS Gen
CONSTANTS ValueLen, ChainLen
Letters == {97, 66, 32, 10}             \* a B space newline
ValueSeq == TLCEval(SetToSeq(UNION {[1..k -> Letters] : k \in 0..ValueLen}))
TheDoc ==
  LET vs == ValueSeq
  IN  DocOf(<<El(B("p"), <<>>,
        [j \in 1..Len(vs) |-> El(B("a"), << <<B("v"), vs[j]>> >>, IF vs[j] = <<>> THEN <<>> ELSE <<Tx(vs[j])>>)])>>)
ThePages == <<TheDoc>>
Stages == TLCEval(SetToSeq({B(s) : s \in {
  ":trim", ":trim('a')", ":trim('a ')", ":trim(' B')", ":collapsews", ":tolower", ":toupper", ":prepend(' A')", ":prepend('b')",
  ":append('b ')", ":append('A')", ":filter(/a/)", ":filter(/a(b)?/i)", ":filter(/(a)|b/i)", ":filter(/^ *(\\S+)/)",
  ":replace(/a/,'')", ":replace(/b/i,'a')", ":replace(/(a)(\\s)?/i,'\\2\\1')", ":replace(/$/,'a')" }}))
Sources == <<B("v"), B("@text"), B("@strip-tags")>>
TheTemplates ==
  LET st == Stages
      cs == SetToSeq(UNION {[1..k -> 1..Len(st)] : k \in 0..ChainLen})
  IN  [j \in 1..(3 * Len(cs)) |->
         LET c == cs[((j - 1) \div 3) + 1]
         IN  B("<a ") \o Sources[(j % 3) + 1] \o Concat([q \in 1..Len(c) |-> st[c[q]]]) \o B(":x/>")]
=============================================================================
