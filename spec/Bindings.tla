------------------------------ MODULE Bindings ------------------------------
(* A host language (Python, Ruby, PHP) that uses the library through its      *)
(* binding.  Host objects are slots: templates h |-> [c, dark], documents are *)
(* the library's own slots.  A call either returns or raises an exception;    *)
(* whatever it does, the objects stay what they are.                          *)
EXTENDS Session, JsonText

BindingOps == {"b-rule", "b-html", "b-extract", "b-free", "b-misuse"}

\* valid UTF-8, as Python requires of text: shortest form, no surrogates
Utf8Next(q, c) ==
  CASE q = "ok" -> IF c < 128 THEN "ok" ELSE IF c >= 194 /\ c <= 223 THEN "1"
                   ELSE IF c = 224 THEN "e0" ELSE IF c = 237 THEN "ed" ELSE IF c >= 225 /\ c <= 239 THEN "2"
                   ELSE IF c = 240 THEN "f0" ELSE IF c >= 241 /\ c <= 243 THEN "3" ELSE IF c = 244 THEN "f4" ELSE "bad"
    [] q = "1" -> IF c >= 128 /\ c <= 191 THEN "ok" ELSE "bad"
    [] q = "2" -> IF c >= 128 /\ c <= 191 THEN "1" ELSE "bad"
    [] q = "3" -> IF c >= 128 /\ c <= 191 THEN "2" ELSE "bad"
    [] q = "e0" -> IF c >= 160 /\ c <= 191 THEN "1" ELSE "bad"
    [] q = "ed" -> IF c >= 128 /\ c <= 159 THEN "1" ELSE "bad"
    [] q = "f0" -> IF c >= 144 /\ c <= 191 THEN "2" ELSE "bad"
    [] q = "f4" -> IF c >= 128 /\ c <= 143 THEN "2" ELSE "bad"
    [] q = "bad" -> "bad"
ValidUtf8(s) == FoldLeft(Utf8Next, "ok", s) = "ok"

\* the maps a host sees, each a sequence of <<name, values, islist>>
SameMaps(ms, gs) == SameObjects(ms, gs)
Presentable(lang, gs) ==
  lang # "python" \/ \A i \in 1..Len(gs) : \A k \in 1..Len(gs[i]) : ValidUtf8(gs[i][k][1]) /\ ValidUtf8(gs[i][k][2])

DoBinding(S, e) ==
  CASE e.op = "b-rule" ->
         LET x == Parse(e.src)
             \* a failed construction leaves no object behind, and an object
             \* whose constructor is called again and fails is what it was
             T == IF x.out = "ok" THEN SetRule(S, e.r, x.rule, x.dark)
                  ELSE IF e.again THEN S ELSE [S EXCEPT !.rules = Drop(@, e.r)]
         IN  IF x.dark THEN Res(SetRule(S, e.r, DefaultChain, TRUE), e.out \in {"ok", "error"}, "-")
             ELSE IF x.out = "ok" THEN Res(T, e.out = "ok", [out |-> "ok"])
             ELSE Res(T, e.out = "error", [out |-> "error"])
    [] e.op = "b-html" -> Res(S, e.out = "ok", [out |-> "ok"])
    [] e.op = "b-free" -> Res(IF e.what = "rule" THEN [S EXCEPT !.rules = Drop(@, e.slot)] ELSE S, e.out = "ok", [out |-> "ok"])
    [] e.op = "b-misuse" -> Res(S, e.out = "error", [out |-> "error"])
    [] e.op = "b-extract" ->
         IF e.r \notin DOMAIN S.rules THEN Res(S, e.out = "error", [out |-> "error"])
         ELSE LET o == S.rules[e.r]
                  x == ExtractAt(S.docs[e.d], o.c, 1, e.max)
              IN  IF o.dark THEN Res(S, e.out \in {"ok", "error"}, "-")
                  ELSE IF x.out # "ok" THEN Res(S, e.out = "error", [out |-> "error"])
                  ELSE IF ~Presentable(e.lang, x.groups) THEN Res(S, e.out = "error", [out |-> "error"])
                  ELSE Res(S, e.out = "ok" /\ SameMaps(e.maps, x.groups), [out |-> "ok", groups |-> x.groups])
=============================================================================
