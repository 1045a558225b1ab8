------------------------------- MODULE MCCli --------------------------------
(* Every command line of htmlext, up to MaxToks arguments, over a small       *)
(* directory of good and bad files: the machine of module Cli, step by step.  *)
EXTENDS Bytes, TLC
CONSTANTS MaxToks, Short     \* Short: a smaller vocabulary
VARIABLES ctoks, cm
mcv == <<ctoks, cm>>

(* ---- the directory: 1, 2 templates; 3 an invalid template; 4 missing;      *)
(* 5 a directory; 6, 7 documents, the second without results                  *)
Files == [i \in 1..7 |-> [name |-> B(<<"a.x", "b.x", "bad.x", "none", "dir", "a.h", "b.h">>[i]),
                          st |-> IF i = 4 THEN "missing" ELSE IF i = 5 THEN "dir" ELSE "ok", src |-> i]]
\* templates given as text: 1, 2 and 3
CliParseM(src) == [ok |-> src # 3, dark |-> FALSE, rule |-> src, msg |-> <<>>]
\* template 1 needs two searches and template 2 one; template 2 finds nothing in document 7
CliExtractM(r, f, max) ==
  IF max # 0 /\ (IF r = 1 THEN 2 ELSE 1) >= max THEN [out |-> "limit", groups |-> <<>>]
  ELSE [out |-> "ok", groups |-> IF r = 2 /\ f = 7 THEN <<>> ELSE <<<<r, f, 1>>, <<r, f, 2>>>>]
C == INSTANCE Cli WITH CliParse <- CliParseM, CliExtract <- CliExtractM

T(k) == [k |-> k]
TF(k, f) == [k |-> k, f |-> f]
TS(n) == [k |-> "s", src |-> n]
TV(k, v) == [k |-> k, v |-> B(v)]
ShortVocabulary == {TF("x", 1), TF("x", 3), TF("x", 4), TF("i", 6), TF("i", 7), TF("i", 4), TF("pos", 1), TF("pos", 6),
                    TS(2), TS(3), TV("m", "2"), T("a"), T("l")}
Vocabulary == IF Short THEN ShortVocabulary
              ELSE ShortVocabulary \union {TF("x", 5), TF("i", 5), TF("pos", 4), TF("pos", 7), TF("x", 2),
                    TV("f", "n"), TV("f", "zz"), TV("m", "1"), TV("m", "x"), T("c"), T("p"), T("h"), T("V"), T("bad")}
\* an option without its value can only be the last argument
CmdLines == UNION {[1..n -> Vocabulary] : n \in 0..MaxToks}
            \union (IF Short THEN {} ELSE {Append(c, T("noarg")) : c \in UNION {[1..n -> Vocabulary] : n \in 0..MaxToks - 1}})

MInit == ctoks \in CmdLines /\ cm = C!CliStart
MNext == cm.ph # "done" /\ cm' = C!CliStep(cm, ctoks, Files) /\ UNCHANGED ctoks
MSpec == MInit /\ [][MNext]_mcv /\ WF_mcv(MNext)

(* ---- what C18 and C19 say about it ---------------------------------------- *)
Has(k) == \E i \in 1..Len(ctoks) : ctoks[i].k = k
TokensOf(k) == SelectSeq(ctoks, LAMBDA t : t.k = k)
Count(k) == Len(TokensOf(k))
Lint == Has("l")
\* the templates and documents of a command line, in their order, said without the machine
Fs(P(_)) == LET q == SelectSeq(ctoks, P) IN [i \in 1..Len(q) |-> q[i].f]
FirstPos == CHOOSE i \in 1..Len(ctoks) : ctoks[i].k = "pos" /\ \A j \in 1..i - 1 : ctoks[j].k # "pos"
HextFiles == LET idx == SelectSeq([i \in 1..Len(ctoks) |-> i], LAMBDA i : ctoks[i].k = "x" \/ (Has("pos") /\ i = FirstPos))
             IN  [i \in 1..Len(idx) |-> ctoks[idx[i]].f]
HtmlFiles == LET idx == SelectSeq([i \in 1..Len(ctoks) |-> i], LAMBDA i : ctoks[i].k = "i" \/ (ctoks[i].k = "pos" /\ i # FirstPos))
             IN  [i \in 1..Len(idx) |-> ctoks[idx[i]].f]
Strings == LET q == TokensOf("s") IN [i \in 1..Len(q) |-> q[i].src]
Templates == HextFiles \o Strings
Invalid == \/ \E k \in {"c", "p", "a", "l", "h", "V", "f", "m"} : Count(k) > 1
           \/ Has("bad") \/ Has("noarg") \/ (Lint /\ Has("pos"))
           \/ \E i \in 1..Len(ctoks) : ctoks[i].k = "m" /\ ~C!LimitOk(ctoks[i].v)
Info == Has("h") \/ Has("V")
Missing == Templates = <<>> \/ (~Lint /\ HtmlFiles = <<>>)
Unreadable(fs) == \E i \in 1..Len(fs) : Files[fs[i]].st # "ok"
BadTemplate == 3 \in {Templates[i] : i \in 1..Len(Templates)}
Limit == IF Has("m") /\ ~Invalid THEN C!LimitOf(<<TokensOf("m")[1].v>>) ELSE 0
Pairs == [i \in 1..(Len(Templates) * Len(HtmlFiles)) |->
            <<Templates[((i - 1) \div Len(HtmlFiles)) + 1], HtmlFiles[((i - 1) % Len(HtmlFiles)) + 1]>>]
Results(ps) == [i \in 1..Len(ps) |-> CliExtractM(ps[i][1], ps[i][2], 0).groups]
Exhausted(p) == CliExtractM(p[1], p[2], Limit).out # "ok"
\* the pairs before the first that exhausts the limit
Before == SelectSeq([i \in 1..Len(Pairs) |-> i], LAMBDA i : \A j \in 1..i : ~Exhausted(Pairs[j]))

TypeOk == cm.ph \in {"args", "hext", "str", "lint", "html", "pairs", "done"} /\ cm.fail \in {"", "args", "help", "input", "template", "limit"}
\* nothing is printed before all inputs are read and understood
NoEarlyOutput == cm.out # <<>> => /\ cm.ph \in {"pairs", "done"}
                                  /\ ~Invalid /\ ~Missing /\ ~BadTemplate
                                  /\ ~Unreadable(HextFiles) /\ ~Unreadable(HtmlFiles) /\ ~Lint
\* the outcome of a run
Done == cm.ph = "done"
Outcome ==
  Done =>
    LET bad == Invalid \/ (~Info /\ (Missing \/ Unreadable(HextFiles) \/ BadTemplate \/ (~Lint /\ Unreadable(HtmlFiles))))
    IN  CASE bad -> cm.fail \in {"args", "input", "template"} /\ cm.out = <<>>
          [] ~bad /\ Info -> cm.fail = "help" /\ cm.out = <<>>
          [] ~bad /\ ~Info /\ Lint -> cm.fail = "" /\ cm.out = <<>>
          [] OTHER -> IF \E i \in 1..Len(Pairs) : Exhausted(Pairs[i])
                      THEN cm.fail = "limit" /\ cm.out = Results([i \in 1..Len(Before) |-> Pairs[i]])
                      ELSE cm.fail = "" /\ cm.out = Results(Pairs)
\* a failing run names what failed
Named == Done /\ cm.fail = "input" => \E i \in 1..7 : Files[i].name = cm.name /\ Files[i].st # "ok"
Ends == <>(cm.ph = "done")
=============================================================================
