------------------------------- MODULE Session ------------------------------
(* The library as a whole, seen by a program that uses it: documents, rules   *)
(* and the parts of rules are values in slots; commands create, change, copy, *)
(* move, destroy and use them.  Commands and their observable results are     *)
(* events:                                                                    *)
(*   Do(S, e) = [s |-> state behind e, ok |-> BOOLEAN, exp |-> expectation]   *)
(* ok says whether the result recorded in e is the one the specification      *)
(* demands.  The specification's state never depends on recorded results, so  *)
(* a trace can be followed beyond a wrong result.                             *)
(*                                                                            *)
(* State: [docs, rules, objs, run], functions from slots:                     *)
(*   docs   documents (Dom)                                                   *)
(*   rules  [c |-> chain, dark |-> BOOLEAN]                                   *)
(*   objs   tests, matches, captures, pipes: [kind, v, dark]                  *)
(*   run    extractions in progress, by thread: [r, d, max]                   *)
EXTENDS MatchingOps, Parser

EmptyFn == [x \in {} |-> 0]
Start == [docs |-> EmptyFn, rules |-> EmptyFn, objs |-> EmptyFn, run |-> EmptyFn]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- from the raw form of events to the specification's values *)
RECURSIVE DarkTest(_), DarkMatch(_)
RawRe(x) == RegexParse(x.src, x.ic)
DarkRe(x) == RawRe(x).st # "ok"
DarkTest(x) == CASE x.t = "re" -> DarkRe(x.re) [] x.t = "not" -> DarkTest(x.x) [] OTHER -> FALSE
DarkMatch(m) == CASE m.m \in {"attr", "fn"} -> DarkTest(m.x)
                  [] m.m = "type" -> DarkRe(m.re)
                  [] m.m = "not" -> \E i \in 1..Len(m.ms) : DarkMatch(m.ms[i])
                  [] OTHER -> FALSE
DarkPipes(ps) == \E i \in 1..Len(ps) : \/ ps[i].p \in {"filter", "replace"} /\ DarkRe(ps[i].re)
                                       \/ ps[i].p = "replace" /\ ~FormatModelled(ps[i].v)
ReOf(x) == LET r == RawRe(x) IN IF r.st = "ok" THEN r ELSE NoRe
RECURSIVE TestOf(_), MatchOf(_)
TestOf(x) == CASE x.t = "re" -> [t |-> "re", re |-> ReOf(x.re)]
               [] x.t = "not" -> [t |-> "not", x |-> TestOf(x.x)]
               [] OTHER -> x
MatchOf(m) == CASE m.m \in {"attr", "fn"} -> [m EXCEPT !.x = TestOf(@)]
                [] m.m = "type" -> [m EXCEPT !.re = ReOf(@)]
                [] m.m = "not" -> [m EXCEPT !.ms = [i \in 1..Len(@) |-> MatchOf(@[i])]]
                [] OTHER -> m
PipesOf(ps) == [i \in 1..Len(ps) |-> IF ps[i].p \in {"filter", "replace"}
                                     THEN [ps[i] EXCEPT !.re = ReOf(@)] ELSE ps[i]]
CaptureOf(c) == [c EXCEPT !.ps = PipesOf(@)]
DarkObj(kind, v) == CASE kind = "test" -> DarkTest(v) [] kind = "match" -> DarkMatch(v)
                      [] kind = "capture" -> DarkPipes(v.ps) [] kind = "pipe" -> DarkPipes(v)
ObjOf(kind, v) == CASE kind = "test" -> TestOf(v) [] kind = "match" -> MatchOf(v)
                    [] kind = "capture" -> CaptureOf(v) [] kind = "pipe" -> PipesOf(v)

(* ---- rules inside of rules.  A path is <<i>> (the i-th rule of the chain), *)
(* followed by steps <<0, j>> (j-th child) or <<n, j>> (j-th rule of the n-th *)
(* nested chain).                                                             *)
RECURSIVE AtPath(_, _), UpdPath(_, _, _)
AtPath(c, p) ==
  IF Len(p) = 1 THEN c[p[1]]
  ELSE LET r == c[p[1]] IN AtPath(IF p[2] = 0 THEN r.ch ELSE r.ne[p[2]], SubSeq(p, 3, Len(p)))
\* the chain with the rule at p replaced by r
UpdPath(c, p, r) ==
  IF Len(p) = 1 THEN [c EXCEPT ![p[1]] = r]
  ELSE LET q == SubSeq(p, 3, Len(p))
           old == c[p[1]]
       IN  IF p[2] = 0 THEN [c EXCEPT ![p[1]].ch = UpdPath(old.ch, q, r)]
           ELSE [c EXCEPT ![p[1]].ne[p[2]] = UpdPath(old.ne[p[2]], q, r)]
\* append a chain as siblings of the rule at p: at the end of p's chain
RECURSIVE NextPath(_, _, _)
NextPath(c, p, new) ==
  IF Len(p) = 1 THEN c \o new
  ELSE LET q == SubSeq(p, 3, Len(p))
           old == c[p[1]]
       IN  IF p[2] = 0 THEN [c EXCEPT ![p[1]].ch = NextPath(old.ch, q, new)]
           ELSE [c EXCEPT ![p[1]].ne[p[2]] = NextPath(old.ne[p[2]], q, new)]

\* what can be seen of a chain without extracting
RECURSIVE Shape(_)
Shape(c) == [i \in 1..Len(c) |-> [tag |-> c[i].tag, name |-> c[i].name, opt |-> c[i].opt,
               greedy |-> c[i].greedy, ch |-> Shape(c[i].ch),
               ne |-> [k \in 1..Len(c[i].ne) |-> Shape(c[i].ne[k])]]]

(* ---- extraction *)
\* max = 0: no limit; max = -1: a limit beyond all counts
Candidates(d, n) == IF d[n].p = 0 THEN <<n>>
                    ELSE LET s == d[d[n].p].ch IN SubSeq(s, IndexOf(d, n), Len(s))
SearchCount(d, c, n) == OSearch(d, c, Candidates(d, n)).c
ExtractAt(d, c, n, max) ==
  LET t == OSearch(d, c, Candidates(d, n))
      res == SelectSeq(TLCEval([i \in 1..Len(t.gs) |-> GroupResult(d, t.gs[i])]), LAMBDA g : g # <<>>)
  IN  IF max > 0 /\ t.c >= max THEN [out |-> "limit", groups |-> <<>>]
      ELSE [out |-> "ok", groups |-> res]

(* ---- commands *)
\* SyntaxError::what() is a C string
CutNul(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN
             IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Ok_(s) == [s |-> s, ok |-> TRUE, exp |-> "-"]
Res(s, ok, exp) == [s |-> s, ok |-> ok, exp |-> exp]
SetRule(S, k, c, dark) == [S EXCEPT !.rules = Put(@, k, [c |-> c, dark |-> dark])]
EditRule(S, e, r, dark) ==
  LET o == S.rules[e.r] IN SetRule(S, e.r, UpdPath(o.c, e.path, r), o.dark \/ dark)
SameResult(e, x) ==
  /\ e.out = x.out
  /\ e.out = "ok" => e.groups = x.groups

\* is o, [out, msg], an outcome of parsing that x = Parse(...) allows?
ParseAllows(x, o) ==
  IF x.out = "ok" THEN o.out = "ok" \/ (x.dark /\ o.out = "syntax")
  ELSE \/ (x.dark /\ o.out \in {"ok", "syntax"})
       \/ (o.out = "syntax" /\ IF x.re THEN StartsWith(o.msg, CutNul(x.msg)) ELSE o.msg = CutNul(x.msg))
Expected(x) == IF x.out = "ok" THEN [out |-> "ok"] ELSE [out |-> "syntax", msg |-> x.msg]
DoParse(S, e) ==
  LET x == Parse(e.src)
  IN  Res(IF x.out = "ok" THEN SetRule(S, e.r, x.rule, x.dark) ELSE SetRule(S, e.r, DefaultChain, TRUE),
          ParseAllows(x, e), Expected(x))
\* a text with several continuations
DoProbe(S, e) ==
  LET xs == ParseEach(e.pre, e.sufs)
      bad == {i \in 1..Len(xs) : ~ParseAllows(xs[i], e.outs[i])}
  IN  Res(S, Len(e.outs) = Len(xs) /\ bad = {},
          {[i |-> i, exp |-> Expected(xs[i])] : i \in bad})

DoExtract(S, e) ==
  LET o == S.rules[e.r]
      x == ExtractAt(S.docs[e.d], o.c, e.n, e.max)
  IN  IF o.dark THEN Res(S, e.out \in {"ok", "limit", "other"}, "-") ELSE Res(S, SameResult(e, x), x)

\* the smallest limit that lets an extraction finish: one more than the number of its searches
DoLimitOf(S, e) ==
  LET o == S.rules[e.r]
      x == 1 + SearchCount(S.docs[e.d], o.c, e.n)
  IN  Res(S, o.dark \/ (e.min = x /\ e.below = "limit"), x)

DoAppend(S, e) ==
  LET src == S.rules[e.from]
      o == S.rules[e.r]
      r == AtPath(o.c, e.path)
      new == src.c
      c == CASE e.how = "child" -> UpdPath(o.c, e.path, [r EXCEPT !.ch = @ \o new])
             [] e.how = "nested" -> UpdPath(o.c, e.path, [r EXCEPT !.ne = Append(@, new)])
             [] e.how = "next" -> NextPath(o.c, e.path, new)
      T == SetRule(S, e.r, c, o.dark \/ src.dark)
  IN  Ok_(IF e.move THEN [T EXCEPT !.rules = Drop(@, e.from)] ELSE T)

DoObjUse(S, e) ==
  LET o == S.objs[e.o]
      x == CASE o.kind = "test" -> TestHolds(o.v, e.val)
             [] o.kind = "match" -> Matches(o.v, S.docs[e.d], e.n)
             [] o.kind = "capture" -> Capture(o.v, S.docs[e.d], e.n)
             [] o.kind = "pipe" -> Pipes(o.v, e.val)
  IN  IF o.dark THEN Res(S, e.out # "crash", "-") ELSE Res(S, e.out = "ok" /\ e.res = x, x)

Crashed(e) == "out" \in DOMAIN e /\ e.out \in {"crash", "hang", "race"}

Do(S, e) ==
  CASE e.op = "reset" -> Ok_(Start)
    (* documents.  That HTML becomes this tree is the HTML parser's business *)
    [] e.op = "doc" -> Res([S EXCEPT !.docs = Put(@, e.d, e.dom)], WellFormed(e.dom), "-")
    [] e.op = "doc-move" -> Ok_([S EXCEPT !.docs = Put(Drop(@, e.from), e.d, S.docs[e.from])])
    [] e.op = "doc-free" -> Ok_([S EXCEPT !.docs = Drop(@, e.d)])
    [] e.op = "doc-look" -> Res(S, e.dom = S.docs[e.d], S.docs[e.d])
    (* rules *)
    [] e.op = "parse" -> DoParse(S, e)
    [] e.op = "rule" -> Ok_(SetRule(S, e.r,
         <<IF e.by = "name" THEN NamedRule(e.tag, e.opt, e.greedy)
           ELSE Rule(e.tag, <<>>, e.opt, e.greedy, <<>>, <<>>, <<>>, <<>>)>>, FALSE))
    [] e.op = "add-match" ->
         LET r == AtPath(S.rules[e.r].c, e.path)
         IN  Ok_(EditRule(S, e, [r EXCEPT !.ms = Append(@, MatchOf(e.v))], DarkMatch(e.v)))
    [] e.op = "add-capture" ->
         LET r == AtPath(S.rules[e.r].c, e.path)
         IN  Ok_(EditRule(S, e, [r EXCEPT !.cs = Append(@, CaptureOf(e.v))], DarkPipes(e.v.ps)))
    [] e.op = "set-optional" -> Ok_(EditRule(S, e, [AtPath(S.rules[e.r].c, e.path) EXCEPT !.opt = e.v], FALSE))
    [] e.op = "set-greedy" -> Ok_(EditRule(S, e, [AtPath(S.rules[e.r].c, e.path) EXCEPT !.greedy = e.v], FALSE))
    [] e.op = "set-tag" -> Ok_(EditRule(S, e, [AtPath(S.rules[e.r].c, e.path) EXCEPT !.tag = e.v], FALSE))
    [] e.op = "set-tagname" -> Ok_(EditRule(S, e, [AtPath(S.rules[e.r].c, e.path) EXCEPT !.name = <<e.v>>], FALSE))
    [] e.op = "append" -> DoAppend(S, e)
    \* copies of a rule, or of a rule inside of another with what follows it
    [] e.op = "copy" ->
         LET o == S.rules[e.from]
             p == e.path
             k == Len(p)
             sub == IF k = 1 THEN o.c
                    ELSE LET r == AtPath(o.c, SubSeq(p, 1, k - 2))
                         IN  IF p[k-1] = 0 THEN r.ch ELSE r.ne[p[k-1]]
         IN  Ok_(SetRule(S, e.r, SubSeq(sub, p[k], Len(sub)), o.dark))
    [] e.op = "move" -> Ok_([SetRule(S, e.r, S.rules[e.from].c, S.rules[e.from].dark)
                               EXCEPT !.rules = IF e.r = e.from THEN @ ELSE Drop(@, e.from)])
    [] e.op = "free" -> Ok_([S EXCEPT !.rules = Drop(@, e.r)])
    [] e.op = "look" -> Res(S, S.rules[e.r].dark \/ e.shape = Shape(S.rules[e.r].c), Shape(S.rules[e.r].c))
    (* use *)
    [] e.op = "extract" -> DoExtract(S, e)
    [] e.op = "limit-of" -> DoLimitOf(S, e)
    [] e.op = "begin" -> Ok_([S EXCEPT !.run = Put(@, e.t, [r |-> e.r, d |-> e.d, n |-> e.n, max |-> e.max])])
    [] e.op = "end" ->
         LET b == S.run[e.t]
             x == DoExtract(S, [op |-> "extract", r |-> b.r, d |-> b.d, n |-> b.n, max |-> b.max,
                                out |-> e.out, groups |-> e.groups])
         IN  Res([S EXCEPT !.run = Drop(@, e.t)], x.ok, x.exp)
    [] e.op = "matches" ->
         LET o == S.rules[e.r]
             x == RuleMatches(AtPath(o.c, e.path), S.docs[e.d], e.n)
         IN  Res(S, o.dark \/ (e.out = "ok" /\ e.res = x), x)
    [] e.op = "captures" ->
         LET o == S.rules[e.r]
             x == Captures(AtPath(o.c, e.path), S.docs[e.d], e.n)
         IN  Res(S, o.dark \/ (e.out = "ok" /\ e.res = x), x)
    [] e.op = "builtin" -> LET x == Builtin(S.docs[e.d], e.n, e.f) IN Res(S, e.res = x, x)
    [] e.op = "builtins" ->     \* of the first 40 nodes
         LET k == IF Len(S.docs[e.d]) < 40 THEN Len(S.docs[e.d]) ELSE 40
             x == [n \in 1..k |-> Builtin(S.docs[e.d], n, e.f)]
         IN  Res(S, e.res = x, x)
    [] e.op = "probe" -> DoProbe(S, e)
    (* parts of rules *)
    [] e.op = "obj" -> Ok_([S EXCEPT !.objs =
         Put(@, e.o, [kind |-> e.kind, v |-> ObjOf(e.kind, e.v), dark |-> DarkObj(e.kind, e.v)])])
    [] e.op = "obj-copy" -> Ok_([S EXCEPT !.objs = Put(@, e.o, S.objs[e.from])])
    [] e.op = "obj-move" -> Ok_([S EXCEPT !.objs = Put(Drop(@, e.from), e.o, S.objs[e.from])])
    [] e.op = "obj-free" -> Ok_([S EXCEPT !.objs = Drop(@, e.o)])
    [] e.op = "obj-use" -> DoObjUse(S, e)
    \* append a copy of a part to a rule
    [] e.op = "add-obj" ->
         LET o == S.objs[e.o]
             r == AtPath(S.rules[e.r].c, e.path)
         IN  Ok_(EditRule(S, e, IF o.kind = "match" THEN [r EXCEPT !.ms = Append(@, o.v)]
                                ELSE [r EXCEPT !.cs = Append(@, o.v)], o.dark))
=============================================================================
