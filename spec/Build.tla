-------------------------------- MODULE Build --------------------------------
EXTENDS Templates, Render, Json
CONSTANTS ROOT, DEPTH
VARIABLES st_tree, st_depth
Roots == Templates(ROOT, 0)
Init == /\ st_depth = 0
        /\ st_tree \in {Roots[i] : i \in 1..Len(Roots)}
Next == /\ st_depth < DEPTH
        /\ st_depth' = st_depth + 1
        /\ LET ss == Slots(st_tree)
           IN \E i \in 1..Len(ss) : LET ts == Templates(ss[i][2], st_depth + 1)
                IN \E j \in 1..Len(ts) : st_tree' = Put(st_tree, ss[i][1], ts[j]) /\ WF(st_tree')
What == CASE ROOT = "x" -> "expr" [] ROOT = "ty" -> "type" [] OTHER -> "query"
Same(st) == LET r == Parse(What, Render(What, st_tree, st)) IN
   (r.ok /\ r.n = st_tree) \/ (PrintT(<<st, Render(What, st_tree, st), Show(st_tree), IF r.ok THEN Show(r.n) ELSE "REJECT">>) /\ FALSE)
RoundTrip == WF(st_tree) => \A i \in 1..Len(Styles) : Same(Styles[i])
=============================================================================
