-------------------------------- MODULE Cli ---------------------------------
(* htmlext: a run of the program as a machine that works through its          *)
(* arguments in phases:                                                       *)
(*   args    all arguments are understood, or the run fails                   *)
(*   hext    the template files are read and parsed, in order                 *)
(*   str     the templates given as arguments are parsed, in order            *)
(*   lint    with --lint, that was all                                        *)
(*   html    the documents are read, in order                                 *)
(*   pairs   every template is applied to every document; results are printed *)
(*   done                                                                     *)
(* An argument is a token [k]: "x" template file, "i" document file, "pos"    *)
(* file without option (f: number of the file), "s" template (src), "c", "p", *)
(* "a", "l", "h", "V" flags, "f" filter (v), "m" limit (v: digits, or other text), *)
(* "bad" an unknown option, "noarg" an option without its value.              *)
(* A file is [name, st, src]; st: "ok", or why it cannot be read.             *)
EXTENDS Bytes

CONSTANTS CliParse(_),          \* a template's text -> [ok, rule, dark, msg]
          CliExtract(_, _, _)   \* rule, file number, limit -> [out, groups]

NoOptions == [hx |-> <<>>, hs |-> <<>>, ht |-> <<>>, flags |-> {}, f |-> <<>>, m |-> <<>>, pos |-> 0, bad |-> FALSE]
\* a limit given as text is understood: digits, of a number of 64 bits
Unsigned(v) == IF v # <<>> /\ v[1] = 43 THEN Tail(v) ELSE v
LimitOk(v) ==
  LET d == Unsigned(v)
      z == StripZeros(d)
  IN  /\ d # <<>> /\ \A i \in 1..Len(d) : IsDigit(d[i])
      /\ Len(z) < 20 \/ (Len(z) = 20 /\ LessEq(z, B("18446744073709551615")))
\* limits of ten digits are never exhausted
LimitOf(m) == IF m = <<>> THEN 0 ELSE LET z == StripZeros(Unsigned(m[1])) IN IF Len(z) > 9 THEN 0 ELSE DigitsValue(z, FALSE)

AddToken(o, t, lint) ==
  CASE t.k = "x" -> [o EXCEPT !.hx = Append(@, t.f)]
    [] t.k = "i" -> [o EXCEPT !.ht = Append(@, t.f)]
    [] t.k = "s" -> [o EXCEPT !.hs = Append(@, t.src)]
    \* the first file is a template, the others are documents
    [] t.k = "pos" -> IF lint THEN [o EXCEPT !.bad = TRUE]
                      ELSE IF o.pos = 0 THEN [o EXCEPT !.hx = Append(@, t.f), !.pos = 1]
                      ELSE [o EXCEPT !.ht = Append(@, t.f), !.pos = @ + 1]
    [] t.k \in {"c", "p", "a", "l", "h", "V"} -> IF t.k \in o.flags THEN [o EXCEPT !.bad = TRUE] ELSE [o EXCEPT !.flags = @ \union {t.k}]
    [] t.k = "f" -> IF o.f # <<>> THEN [o EXCEPT !.bad = TRUE] ELSE [o EXCEPT !.f = <<t.v>>]
    [] t.k = "m" -> IF o.m # <<>> \/ ~LimitOk(t.v) THEN [o EXCEPT !.bad = TRUE] ELSE [o EXCEPT !.m = <<t.v>>]
    [] t.k \in {"bad", "noarg"} -> [o EXCEPT !.bad = TRUE]

CliStart == [ph |-> "args", k |-> 1, o |-> NoOptions, rules |-> <<>>, out |-> <<>>, fail |-> "", name |-> <<>>, msg |-> <<>>, dark |-> FALSE]
CliFail(m, why, name, msg) == [m EXCEPT !.ph = "done", !.fail = why, !.name = name, !.msg = msg]
Phase(m, ph) == [m EXCEPT !.ph = ph, !.k = 1]

\* a template is added, or the run fails
Template(m, name, src) ==
  LET x == CliParse(src)
  IN  IF x.dark THEN [m EXCEPT !.dark = TRUE, !.ph = "done"]
      ELSE IF ~x.ok THEN CliFail(m, "template", name, x.msg)
      ELSE [m EXCEPT !.rules = Append(@, x.rule), !.k = @ + 1]

CliStep(m, toks, files) ==
  LET lint == \E i \in 1..Len(toks) : toks[i].k = "l"
      o == m.o
  IN
  CASE m.ph = "args" ->
         IF m.k <= Len(toks) THEN [m EXCEPT !.o = AddToken(o, toks[m.k], lint), !.k = @ + 1]
         ELSE IF o.bad THEN CliFail(m, "args", <<>>, <<>>)
         ELSE IF {"h", "V"} \cap o.flags # {} THEN [m EXCEPT !.ph = "done", !.fail = "help"]
         ELSE IF o.hx = <<>> /\ o.hs = <<>> THEN CliFail(m, "args", <<>>, <<>>)
         ELSE IF ~lint /\ o.ht = <<>> THEN CliFail(m, "args", <<>>, <<>>)
         ELSE Phase(m, "hext")
    [] m.ph = "hext" ->
         IF m.k > Len(o.hx) THEN Phase(m, "str")
         ELSE LET f == files[o.hx[m.k]]
              IN  IF f.st # "ok" THEN CliFail(m, "input", f.name, <<>>) ELSE Template(m, f.name, f.src)
    [] m.ph = "str" ->
         IF m.k > Len(o.hs) THEN Phase(m, "lint") ELSE Template(m, <<>>, o.hs[m.k])
    [] m.ph = "lint" -> Phase(m, IF lint THEN "done" ELSE "html")
    [] m.ph = "html" ->
         IF m.k > Len(o.ht) THEN Phase(m, "pairs")
         ELSE LET f == files[o.ht[m.k]]
              IN  IF f.st # "ok" THEN CliFail(m, "input", f.name, <<>>) ELSE [m EXCEPT !.k = @ + 1]
    [] m.ph = "pairs" ->
         LET n == Len(o.ht)
             r == ((m.k - 1) \div n) + 1
         IN  IF r > Len(m.rules) THEN [m EXCEPT !.ph = "done"]
             ELSE LET x == CliExtract(m.rules[r], o.ht[((m.k - 1) % n) + 1], LimitOf(o.m))
                  IN  IF x.out # "ok" THEN CliFail(m, "limit", <<>>, <<>>)
                      ELSE [m EXCEPT !.out = Append(@, x.groups), !.k = @ + 1]

RECURSIVE CliRun_(_, _, _)
CliRun_(m, toks, files) == IF m.ph = "done" THEN m ELSE CliRun_(CliStep(m, toks, files), toks, files)
CliRun(toks, files) == CliRun_(CliStart, toks, files)
=============================================================================
