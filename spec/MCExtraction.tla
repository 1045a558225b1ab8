----------------------------- MODULE MCExtraction ---------------------------
(* Extractions as processes that run at the same time, interleaved at the     *)
(* sibling lists that they search, on a shared rule and document, each with a *)
(* budget of its own.  Checked: whatever the interleaving,                    *)
(*   Outcome_   every extraction ends with the result that the sequential     *)
(*              specification demands (C16) for its own limit (C15)           *)
(*   Early      none is aborted while its own searches are within its limit   *)
(*   Whole      none ends early without being aborted: all lists are searched *)
(*   Shared     nothing that is shared changes                                *)
(*   Ends       every extraction ends                                         *)
EXTENDS MatchingOps
CONSTANTS Procs, Limits, MaxNodes, NodeTags, Templates
VARIABLES xr, xd, xp
xvars == <<xr, xd, xp>>

Node(k, p, n) == [k |-> k, p |-> p, ch |-> <<>>, n |-> n, u |-> FALSE, at |-> <<>>, x |-> <<>>]
\* all trees: a node's parent is one of the right-most branch
RECURSIVE Grow(_)
Grow(n) == IF n = 1 THEN {<<Node("e", 0, B("a"))>>}
  ELSE LET S == Grow(n - 1)
           branch(t) == {Len(t)} \union Ancestors(t, Len(t))
       IN  S \union {Append([t EXCEPT ![p].ch = Append(@, Len(t) + 1)], Node("e", p, B(g))) :
                       t \in {t \in S : Len(t) = n - 1}, p \in UNION {branch(t) : t \in {t \in S : Len(t) = n - 1}}, g \in NodeTags}
WellGrown(t) == \A n \in 2..Len(t) : t[n].p \in ({n - 1} \union Ancestors(t, n - 1))
Trees == TLCEval({t \in Grow(MaxNodes) : WellGrown(t) /\ Len(t) = MaxNodes})

Cap(i) == <<[c |-> "fn", f |-> "text", to |-> <<48 + i>>, ps |-> <<>>]>>
R_(i, t, o, g, ch, ne) == Rule(B(t), <<>>, o, g, <<>>, Cap(i), ch, ne)
AllTemplates == [
  single |-> <<R_(0, "a", FALSE, FALSE, <<>>, <<>>)>>,
  pair   |-> <<R_(0, "a", FALSE, FALSE, <<>>, <<>>), R_(1, "b", FALSE, FALSE, <<>>, <<>>)>>,
  child  |-> <<R_(0, "a", FALSE, FALSE, <<R_(1, "b", TRUE, FALSE, <<>>, <<>>)>>, <<>>)>>,
  nested |-> <<R_(0, "a", FALSE, FALSE, <<>>, <<<<R_(1, "b", FALSE, FALSE, <<>>, <<>>)>>>>)>>,
  greedy |-> <<R_(0, "b", FALSE, TRUE, <<>>, <<<<R_(1, "a", FALSE, FALSE, <<>>, <<>>)>>>>), R_(2, "a", FALSE, FALSE, <<>>, <<>>)>>]

Init == /\ xr \in {AllTemplates[t] : t \in Templates}
        /\ xd \in Trees
        /\ xp \in [Procs -> {[todo |-> << <<1>> >>, c |-> 0, gs |-> <<>>, out |-> "-", max |-> m] : m \in Limits}]

Over(p) == xp[p].max > 0 /\ xp[p].c >= xp[p].max
\* one sibling list is searched, the lists below it are put in front of the others
Search_(p) ==
  LET L == Head(xp[p].todo)
      g == OGroups(xd, xr, L, 1)
      below == SelectSeq([i \in 1..Len(L) |-> xd[L[i]].ch], LAMBDA q : q # <<>>)
  IN  /\ xp[p].out = "-" /\ xp[p].todo # <<>> /\ ~Over(p)
      /\ xp' = [xp EXCEPT ![p].todo = below \o Tail(@), ![p].c = @ + 1 + g.c, ![p].gs = @ \o g.gs]
Finish(p) == /\ xp[p].out = "-" /\ xp[p].todo = <<>> /\ ~Over(p) /\ xp' = [xp EXCEPT ![p].out = "ok"]
Abort(p) == /\ xp[p].out = "-" /\ Over(p) /\ xp' = [xp EXCEPT ![p].out = "limit", ![p].gs = <<>>]
Next == \E p \in Procs : (Search_(p) \/ Finish(p) \/ Abort(p)) /\ UNCHANGED <<xr, xd>>
Spec == Init /\ [][Next]_xvars /\ \A p \in Procs : WF_xvars((Search_(p) \/ Finish(p) \/ Abort(p)) /\ UNCHANGED <<xr, xd>>)

Results_(gs) == SelectSeq([i \in 1..Len(gs) |-> GroupResult(xd, gs[i])], LAMBDA g : g # <<>>)
Outcome_ == \A p \in Procs : xp[p].out # "-" => [out |-> xp[p].out, groups |-> Results_(xp[p].gs)] = Outcome(xd, xr, xp[p].max)
Early == \A p \in Procs : xp[p].out = "limit" => xp[p].max > 0 /\ Searches(xd, xr) >= xp[p].max
Whole == \A p \in Procs : xp[p].out = "ok" => xp[p].c = Searches(xd, xr) /\ xp[p].todo = <<>>
Shared == [][xr' = xr /\ xd' = xd]_xvars
Ends == \A p \in Procs : <>(xp[p].out # "-")
=============================================================================
