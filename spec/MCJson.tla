------------------------------- MODULE MCJson ------------------------------
(* The JSON reader that judges htmlext's output, against writers: whatever a  *)
(* writer of valid JSON prints, in any of several styles, the reader gets back*)
(* exactly what was written (so two different results never print the same),  *)
(* and it reports the layout; and it refuses texts with a byte missing from   *)
(* the structure.                                                             *)
EXTENDS JsonText, TLC
VARIABLES jg, jstyle, jread
Bytes_ == {97, 34, 92, 10, 0, 195, 47}
Texts_ == UNION {[1..k -> Bytes_] : k \in 0..2}
Names_ == {<<97>>, <<98>>, <<34>>}
Short_ == {<<>>, <<97>>, <<92, 34>>}
Pair_ == Names_ \X Short_
\* groups: pairs of equal names stand together, as in hext's results
Sorted_(g) == \A i, j \in 1..Len(g) : i < j /\ g[i][1] = g[j][1] => \A k \in i..j : g[k][1] = g[i][1]
Groups_ == {g \in UNION {[1..k -> Pair_] : k \in 1..3} : Sorted_(g)} \union {<< <<x, y>> >> : x \in {<<97>>}, y \in Texts_} \union {<< <<x, <<97>> >> >> : x \in Texts_}
Styles_ == [esc : {"short", "u", "U"}, pretty : BOOLEAN, arr : BOOLEAN]

Hex(n, up) == LET d == IF up THEN B("0123456789ABCDEF") ELSE B("0123456789abcdef") IN <<d[(n \div 16) + 1], d[(n % 16) + 1]>>
EscByte(c, st) ==
  IF c \in {34, 92} THEN IF st.esc = "short" THEN <<92, c>> ELSE B("\\u00") \o Hex(c, st.esc = "U")
  ELSE IF c = 10 /\ st.esc = "short" THEN B("\\n")
  ELSE IF c < 32 THEN B("\\u00") \o Hex(c, st.esc = "U")
  ELSE IF c = 47 /\ st.esc = "U" THEN B("\\/") ELSE <<c>>
WStr(s, st) == <<34>> \o Concat([i \in 1..Len(s) |-> EscByte(s[i], st)]) \o <<34>>
Sep(ss, sep) == IF ss = <<>> THEN <<>> ELSE Concat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE sep \o ss[i]])
WObj(g, st) ==
  LET firsts == SelectSeq([i \in 1..Len(g) |-> i], LAMBDA i : i = 1 \/ g[i-1][1] # g[i][1])
      vals(i) == LET v == SelectSeq(g, LAMBDA p : p[1] = g[i][1]) IN [k \in 1..Len(v) |-> WStr(v[k][2], st)]
      member(i) == (IF st.pretty THEN <<10, 32, 32>> ELSE <<>>) \o WStr(g[i][1], st) \o B(":") \o (IF st.pretty THEN <<32>> ELSE <<>>)
                   \o (IF Len(vals(i)) = 1 THEN vals(i)[1] ELSE B("[") \o Sep(vals(i), B(",")) \o B("]"))
  IN  B("{") \o Sep([k \in 1..Len(firsts) |-> member(firsts[k])], B(",")) \o (IF st.pretty THEN <<10>> ELSE <<>>) \o B("}")
WAll(gs, st) ==
  LET os == [i \in 1..Len(gs) |-> WObj(gs[i], st)]
  IN  IF st.arr THEN B("[") \o Sep(IF st.pretty THEN [i \in 1..Len(os) |-> <<10>> \o os[i]] ELSE os, B(",")) \o B("]") \o <<10>>
      ELSE Concat([i \in 1..Len(os) |-> os[i] \o <<10>>])

Other == << <<B("z"), <<92>> >> >>
Init == jread = FALSE /\ jg \in {<<g>> : g \in Groups_} \union {<<g, Other>> : g \in Groups_} /\ jstyle \in Styles_
Next == jread = FALSE /\ jread' = TRUE /\ UNCHANGED <<jg, jstyle>>
Spec == Init /\ [][Next]_<<jg, jstyle, jread>>
RoundTrip == jread =>
  LET j == ReadJson(WAll(jg, jstyle))
  IN  /\ j.ok /\ j.lines
      /\ j.nl = jstyle.pretty /\ (jstyle.pretty => j.spread)
      /\ IF jstyle.arr THEN Len(j.tops) = 1 /\ j.tops[1].arr /\ SameObjects(j.tops[1].objs, jg)
         ELSE Len(j.tops) = Len(jg) /\ SameObjects([i \in 1..Len(j.tops) |-> j.tops[i].objs[1]], jg)
\* one byte of structure missing, or one more: not the same reading
Damage == jread =>
  LET t == WAll(jg, jstyle)
      same(u) == LET j == ReadJson(u) IN j.ok /\ j.lines /\ (IF jstyle.arr THEN Len(j.tops) = 1 /\ j.tops[1].arr /\ SameObjects(j.tops[1].objs, jg)
                                    ELSE Len(j.tops) = Len(jg) /\ \A i \in 1..Len(j.tops) : Len(j.tops[i].objs) = 1 /\ SameObject(j.tops[i].objs[1], jg[i]))
  IN  \A i \in 1..Len(t) : t[i] \in {34, 44, 58, 91, 93, 123, 125} => ~same(SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)))
=============================================================================
