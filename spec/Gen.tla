--------------------------------- MODULE Gen --------------------------------
(* Exhaustive enumeration of small cases: every template of a family on every *)
(* page of a family, with the results that the specification demands.  The    *)
(* families are constants; the modules that extend this one define them.      *)
(*   "PAGE " [p |-> number, h |-> HTML text]                                  *)
(*   "CASE " [p |-> page, t |-> template, g |-> groups]                       *)
(*   "DARK " template: its regular expressions are not modelled               *)
EXTENDS Session, Page, Json
CONSTANTS
  Pages_,            \* sequence of documents (Dom)
  Templates_         \* sequence of texts
VARIABLES gchunk, gcase
gvars == <<gchunk, gcase>>

\* The families are computed once (TLC would otherwise do that over and over).
ThePages_ == TLCGet(101)
TheTemplates_ == TLCGet(102)
Chunks == 64
GInit ==
  /\ TLCSet(101, Pages_) /\ TLCSet(102, Templates_)
  /\ gchunk = 0 /\ gcase = <<0, 0>>
  /\ \A p \in 1..Len(ThePages_) :
       /\ WellFormed(ThePages_[p])
       /\ PrintT("PAGE " \o ToJson([p |-> p, h |-> HtmlOf(ThePages_[p])]))
GNext ==
  \/ gchunk = 0 /\ gchunk' \in 1..Chunks /\ UNCHANGED gcase
  \/ /\ gchunk > 0 /\ gcase = <<0, 0>>
     /\ LET n == Len(TheTemplates_)
        IN  \E q \in {x \in 0..(Len(ThePages_) * n - 1) : (x % Chunks) + 1 = gchunk} :
               gcase' = <<(q \div n) + 1, (q % n) + 1>>
     /\ UNCHANGED gchunk
GSpec == GInit /\ [][GNext]_gvars

\* Evaluated once for every case: the template is accepted, both descriptions
\* of matching agree on the result, and the case is printed.
Emit ==
  IF gcase[1] = 0 THEN TRUE
  ELSE LET t == TheTemplates_[gcase[2]]
           d == ThePages_[gcase[1]]
           x == Parse(t)
       IN  /\ x.out = "ok"
           /\ IF x.dark THEN PrintT("DARK " \o ToJson(t))
              ELSE LET r == Results(d, x.rule)
                   IN  /\ Outcome(d, x.rule, 0) = [out |-> "ok", groups |-> r]
                       /\ PrintT("CASE " \o ToJson([p |-> gcase[1], t |-> t, g |-> r]))
=============================================================================
