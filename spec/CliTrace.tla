------------------------------ MODULE CliTrace ------------------------------
(* Traces of htmlext and of the bindings, together with the library's own     *)
(* (Session): every file of a run is also a document in the slot of its       *)
(* number.                                                                    *)
EXTENDS Session, JsonText, Bindings, Json, IOUtils
VARIABLES ctk, cps, cse
cvars == <<ctk, cps, cse>>

TextOf(src) == LET x == Parse(src) IN [ok |-> x.out = "ok", dark |-> x.dark,
                                       rule |-> IF x.out = "ok" THEN x.rule ELSE <<>>,
                                       msg |-> IF x.out = "ok" THEN <<>> ELSE CutNul(x.msg)]
\* the library's state is needed for the documents: cse
OnFile(rule, f, max) == ExtractAt(cse.docs[f], rule, 1, max)
C == INSTANCE Cli WITH CliParse <- TextOf, CliExtract <- OnFile

\* what is printed for the results of the pairs
Printed(m, e) ==
  LET all == Concat(m.out)
      flags == m.o.flags
      pretty == "p" \in flags \/ ("c" \notin flags /\ e.tty)
  IN  IF m.o.f # <<>>
      THEN e.stdout = Concat([i \in 1..Len(all) |->
                        Concat([k \in 1..Len(all[i]) |-> IF all[i][k][1] = m.o.f[1] THEN all[i][k][2] \o <<NL>> ELSE <<>>])])
      ELSE LET j == ReadJson(e.stdout)
               \* the pairs that have results
               some == SelectSeq(m.out, LAMBDA gs : gs # <<>>)
           IN  /\ j.ok /\ j.lines
               /\ IF "a" \in flags
                  THEN /\ Len(j.tops) = Len(some)
                       /\ \A i \in 1..Len(some) : j.tops[i].arr /\ SameObjects(j.tops[i].objs, some[i])
                  ELSE /\ \A i \in 1..Len(j.tops) : ~j.tops[i].arr
                       /\ SameObjects([i \in 1..Len(j.tops) |-> j.tops[i].objs[1]], all)
               /\ IF pretty THEN j.spread ELSE ~j.nl
\* is there anything to print?
Prints(m) == LET all == Concat(m.out) IN
  IF m.o.f # <<>> THEN \E i \in 1..Len(all) : \E k \in 1..Len(all[i]) : all[i][k][1] = m.o.f[1]
  ELSE all # <<>>
HextString == B("<hext-string>")
DoCli(S, e) ==
  LET m == TLCEval(C!CliRun(e.toks, e.files))
      failed == e.code \in 1..125 /\ e.stderr # <<>>
      broken == e.sink # "ok"     \* whatever is written to standard output is lost
      ok == CASE m.dark -> TRUE
              [] broken /\ (m.fail = "help" \/ (m.fail = "" /\ Prints(m))) -> failed
              [] broken /\ m.fail = "" -> e.code = 0
              [] broken /\ m.fail = "limit" -> failed
              [] m.fail = "" -> e.code = 0 /\ Printed(m, e) /\ ("l" \in m.o.flags => e.stderr = <<>>)
              [] m.fail = "help" -> e.code = 0 /\ e.stdout # <<>>
              [] m.fail = "args" -> failed /\ e.stdout = <<>>
              [] m.fail = "input" -> failed /\ e.stdout = <<>> /\ HasSub(e.stderr, m.name)
              [] m.fail = "template" -> /\ failed /\ e.stdout = <<>>
                                        /\ HasSub(e.stderr, IF m.name = <<>> THEN HextString ELSE m.name)
              [] m.fail = "limit" -> failed /\ Printed(m, e)
  IN  Res(S, ok, [fail |-> IF broken /\ m.fail = "" /\ Prints(m) THEN "output" ELSE m.fail, name |-> m.name, lint |-> "l" \in m.o.flags, sink |-> e.sink,
                  results |-> IF Len(m.out) > 20 THEN <<>> ELSE m.out])

DoAll(S, e) ==
  CASE e.op = "cli" -> DoCli(S, e)
    [] e.op \in BindingOps -> DoBinding(S, e)
    [] OTHER -> Do(S, e)

CTraces == ndJsonDeserialize(IOEnv.TRACE_IN)
CInit == ctk \in 1..Len(CTraces) /\ cps = 1 /\ cse = Start
CNext ==
  /\ cps <= Len(CTraces[ctk])
  /\ LET e == CTraces[ctk][cps]
         r == IF Crashed(e) THEN Res(cse, FALSE, "a result") ELSE DoAll(cse, e)
     IN  /\ cps' = cps + 1
         /\ cse' = r.s
         /\ (IF r.ok THEN TRUE
             ELSE PrintT("REJECTED " \o ToString(ctk) \o " " \o ToString(cps) \o " " \o ToJson(r.exp)))
  /\ UNCHANGED ctk
CSpec == CInit /\ [][CNext]_cvars
CView_ == <<ctk, cps>>
=============================================================================
