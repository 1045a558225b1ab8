------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of integers 0..255, and the string helpers the   *)
(* library is specified with.  All text in the specification (templates,      *)
(* attribute values, captured values, JSON output) is of this type.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf ==
  LET p == [i \in 1..Len(Printable) |-> SubSeq(Printable, i, i)]
  IN  TLCEval([c \in {p[i] : i \in 1..Len(Printable)} |->
                 31 + (CHOOSE i \in 1..Len(Printable) : p[i] = c)]
              @@ ("\n" :> 10) @@ ("\t" :> 9) @@ ("\r" :> 13) @@ ("\f" :> 12))

\* The bytes of a TLA+ string.
B(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

\* 'c': the code of a one-character string.
Ch(c) == CodeOf[c]

NL == 10
SP == 32

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)

\* HTML whitespace: space, tab, LF, FF, CR.
IsHtmlSpace(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 12 \/ c = 13
\* Template whitespace (C isspace): also VT.
IsHextSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)

LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerC(s[i])])
Upper(s) == TLCEval([i \in 1..Len(s) |-> UpperC(s[i])])

\* s occurs in t at (one-based) offset i.
OccursAt(s, t, i) ==
  /\ i + Len(s) - 1 <= Len(t)
  /\ \A k \in 1..Len(s) : s[k] = t[i + k - 1]

StartsWith(t, s) == OccursAt(s, t, 1)
EndsWith(t, s)   == Len(s) <= Len(t) /\ OccursAt(s, t, Len(t) - Len(s) + 1)
HasSub(t, s)   == \E i \in 1..(Len(t) - Len(s) + 1) : OccursAt(s, t, i)

\* unsigned byte-wise lexicographic order
LessEq(s, t) ==
  LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      d == {k \in 1..n : s[k] # t[k]}
  IN  IF d = {} THEN Len(s) <= Len(t)
      ELSE LET k == CHOOSE k \in d : \A j \in d : k <= j IN s[k] < t[k]

Repeat(c, n) == TLCEval([i \in 1..(IF n < 0 THEN 0 ELSE n) |-> c])

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* The maximal pieces of s between separator bytes, empty pieces included:
\* Split("a,,b", ',') = <<"a", "", "b">>; Split("", ',') = <<"">>.
Split(s, sep) ==
  LET ends == SetToSortSeq({i \in 1..Len(s) : s[i] = sep} \union {Len(s) + 1}, <)
  IN  TLCEval([k \in 1..Len(ends) |->
         SubSeq(s, IF k = 1 THEN 1 ELSE ends[k-1] + 1, ends[k] - 1)])

\* First/last index of s whose byte is not in the set cs (0 if there is none).
TrimSet(s, cs) ==
  LET keep == {i \in 1..Len(s) : s[i] \notin cs}
  IN  IF keep = {} THEN <<>>
      ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j,
                     CHOOSE i \in keep : \A j \in keep : j <= i)

\* The words of s: maximal runs of bytes that are not HTML whitespace, joined
\* with single spaces.
CollapseWs(s) ==
  LET idx == SetToSortSeq({i \in 1..Len(s) : ~IsHtmlSpace(s[i])}, <)
  IN  FoldLeft(LAMBDA acc, k :
                 IF k > 1 /\ idx[k] # idx[k-1] + 1
                 THEN Append(Append(acc, SP), s[idx[k]])
                 ELSE Append(acc, s[idx[k]]),
               <<>>, [k \in 1..Len(idx) |-> k])

\* Decimal rendering of a natural / integer
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
IntDigits(n) == IF n < 0 THEN <<45>> \o NatDigits(-n) ELSE NatDigits(n)

\* TLC integers are 32-bit; a decimal literal fits into a C int iff:
StripZeros(d) == LET nz == {i \in 1..Len(d) : d[i] # 48}
                 IN  IF nz = {} THEN <<48>>
                     ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
IntMaxDigits == B("2147483647")
IntMinDigits == B("2147483648")
DigitsFitInt(d, negative) ==
  LET z == StripZeros(d)
  IN  Len(z) < 10 \/ (Len(z) = 10 /\ LessEq(z, IF negative THEN IntMinDigits ELSE IntMaxDigits))
\* Value of digits that fit (the most negative int is not representable as -(n)
\* in TLC, so it is built from below).
DigitsValue(d, negative) ==
  FoldLeft(LAMBDA a, c : IF negative THEN a * 10 - (c - 48) ELSE a * 10 + (c - 48), 0, StripZeros(d))
=============================================================================
