------------------------------ MODULE JsonText ------------------------------
(* Reads the JSON that htmlext prints: a machine over bytes that accepts      *)
(* exactly the JSON texts of the shape                                        *)
(*   text   = { object | "[" object { "," object } "]" }                      *)
(*   object = "{" [ string ":" value { "," string ":" value } ] "}"           *)
(*   value  = string | "[" string { "," string } "]"                          *)
(* Result: [ok, tops, nl, dense, lines]                                       *)
(*   tops   sequence of [arr |-> BOOLEAN, objs |-> sequence of objects]; an   *)
(*          object is a sequence of <<name, values, isarray>>                 *)
(*   nl     there is a newline inside of one of the texts                     *)
(*   spread every member and every object of an array begins on a new line    *)
(*   lines  every text is followed by a newline                               *)
EXTENDS Bytes

JStart == [q |-> "top", arr |-> FALSE, tops |-> <<>>, objs |-> <<>>, obj |-> <<>>, name |-> <<>>, vals |-> <<>>,
           lst |-> FALSE, key |-> FALSE, str |-> <<>>, hex |-> 0, left |-> 0, ws |-> FALSE,
           nl |-> FALSE, spread |-> TRUE, lines |-> TRUE]
IsJsonSpace(c) == c \in {32, 9, 10, 13}
JBad(j) == [j EXCEPT !.q = "bad"]
HexValue(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
Utf8Of(n) == IF n < 128 THEN <<n>>
             ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
             ELSE <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
\* a text is complete
TopDone(j, objs) == [j EXCEPT !.tops = Append(@, [arr |-> j.arr, objs |-> objs]), !.objs = <<>>, !.arr = FALSE, !.q = "end"]
ObjDone(j) == IF j.arr THEN [j EXCEPT !.objs = Append(@, j.obj), !.obj = <<>>, !.q = "arr,"]
              ELSE TopDone([j EXCEPT !.obj = <<>>], <<j.obj>>)
Member(j) == [j EXCEPT !.obj = Append(@, <<j.name, j.vals, j.lst>>), !.vals = <<>>, !.q = "obj,"]
StrDone(j) == IF j.key THEN [j EXCEPT !.name = j.str, !.q = ":"]
              ELSE LET u == [j EXCEPT !.vals = Append(@, j.str)]
                   IN  IF j.lst THEN [u EXCEPT !.q = "val,"] ELSE Member(u)
OpenStr(j, key) == [j EXCEPT !.q = "str", !.str = <<>>, !.key = key]
JByte(j0, c) ==
  IF j0.q \notin {"str", "esc", "u", "bad"} /\ IsJsonSpace(c)
  THEN IF j0.q \in {"top", "end"} THEN [j0 EXCEPT !.q = IF c = 10 THEN "top" ELSE @]
       ELSE [j0 EXCEPT !.ws = @ \/ c = 10, !.nl = @ \/ c = 10]
  ELSE LET j == [j0 EXCEPT !.ws = FALSE]
           fresh == [j EXCEPT !.spread = @ /\ j0.ws]
       IN
  CASE j.q \in {"top", "end"} ->
         LET u == [j EXCEPT !.lines = @ /\ (j.q = "top"), !.lst = FALSE]
         IN  IF c = Ch("{") THEN [u EXCEPT !.q = "obj"]
             ELSE IF c = Ch("[") THEN [u EXCEPT !.q = "arr", !.arr = TRUE] ELSE JBad(j)
    [] j.q = "arr" -> IF c = Ch("{") THEN [fresh EXCEPT !.q = "obj"] ELSE IF c = Ch("]") THEN TopDone(j, <<>>) ELSE JBad(j)
    [] j.q = "arr," -> IF c = Ch(",") THEN [j EXCEPT !.q = "arr2"] ELSE IF c = Ch("]") THEN TopDone(j, j.objs) ELSE JBad(j)
    [] j.q = "arr2" -> IF c = Ch("{") THEN [fresh EXCEPT !.q = "obj"] ELSE JBad(j)
    [] j.q = "obj" -> IF c = 34 THEN OpenStr(fresh, TRUE) ELSE IF c = Ch("}") THEN ObjDone(j) ELSE JBad(j)
    [] j.q = "obj," -> IF c = Ch(",") THEN [j EXCEPT !.q = "obj2"] ELSE IF c = Ch("}") THEN ObjDone(j) ELSE JBad(j)
    [] j.q = "obj2" -> IF c = 34 THEN OpenStr(fresh, TRUE) ELSE JBad(j)
    [] j.q = ":" -> IF c = Ch(":") THEN [j EXCEPT !.q = "val", !.lst = FALSE] ELSE JBad(j)
    [] j.q = "val" -> IF c = 34 THEN OpenStr(j, FALSE)
                      ELSE IF c = Ch("[") THEN [j EXCEPT !.q = "val0", !.lst = TRUE] ELSE JBad(j)
    [] j.q = "val0" -> IF c = 34 THEN OpenStr(j, FALSE) ELSE IF c = Ch("]") THEN Member(j) ELSE JBad(j)
    [] j.q = "val," -> IF c = Ch(",") THEN [j EXCEPT !.q = "val2"] ELSE IF c = Ch("]") THEN Member(j) ELSE JBad(j)
    [] j.q = "val2" -> IF c = 34 THEN OpenStr(j, FALSE) ELSE JBad(j)
    [] j.q = "str" -> IF c = 34 THEN StrDone(j)
                      ELSE IF c = 92 THEN [j EXCEPT !.q = "esc"]
                      ELSE IF c < 32 THEN JBad(j)
                      ELSE [j EXCEPT !.str = Append(@, c)]
    [] j.q = "esc" ->
         LET put(x) == [j EXCEPT !.str = Append(@, x), !.q = "str"]
         IN  CASE c \in {34, 92, 47} -> put(c)
               [] c = Ch("b") -> put(8) [] c = Ch("f") -> put(12) [] c = Ch("n") -> put(10)
               [] c = Ch("r") -> put(13) [] c = Ch("t") -> put(9)
               [] c = Ch("u") -> [j EXCEPT !.q = "u", !.hex = 0, !.left = 4]
               [] OTHER -> JBad(j)
    [] j.q = "u" ->
         LET h == HexValue(c)
             n == j.hex * 16 + h
         IN  IF h = 99 THEN JBad(j)
             ELSE IF j.left > 1 THEN [j EXCEPT !.hex = n, !.left = @ - 1]
             ELSE IF n >= 55296 /\ n < 57344 THEN JBad(j)      \* surrogates are not used
             ELSE [j EXCEPT !.str = @ \o Utf8Of(n), !.q = "str"]
    [] j.q = "bad" -> j
ReadJson(s) ==
  LET j == FoldLeft(JByte, JStart, s)
  IN  [ok |-> j.q \in {"top", "end"}, tops |-> j.tops, nl |-> j.nl, spread |-> j.spread, lines |-> j.lines /\ j.q = "top"]

(* ---- what must be read.  A group, a sequence of pairs <<name, value>>, as  *)
(* an object: a function from names to [vals, arr]                            *)
ObjectOf(g) ==
  LET names == {g[i][1] : i \in 1..Len(g)}
  IN  TLCEval([n \in names |->
        LET vs == SelectSeq(g, LAMBDA p : p[1] = n)
        IN  [vals |-> [i \in 1..Len(vs) |-> vs[i][2]], arr |-> Len(vs) > 1]])
\* an object that has been read
MembersOf(o) ==
  TLCEval([n \in {o[i][1] : i \in 1..Len(o)} |->
     LET i == CHOOSE k \in 1..Len(o) : o[k][1] = n IN [vals |-> o[i][2], arr |-> o[i][3]]])
SameObject(o, g) == Len(o) = Cardinality({o[i][1] : i \in 1..Len(o)}) /\ MembersOf(o) = ObjectOf(g)
SameObjects(os, gs) == Len(os) = Len(gs) /\ \A i \in 1..Len(gs) : SameObject(os[i], gs[i])
=============================================================================
