-------------------------------- MODULE Walk --------------------------------
(* Trees under construction.  A state is a tree; a step puts a template into one   *)
(* of its slots.  Breadth first, every template goes into every slot (all pairs    *)
(* of neighbouring node kinds at DEPTH 1, triples at DEPTH 2).  A walk with a seed  *)
(* makes pseudo-random choices instead and goes deeper.                             *)
EXTENDS Templates, Render, Json, IOUtils
VARIABLES st_tree, st_depth, st_seed

ToNat(s) == NatOf(s)
DEPTH == ToNat(IOEnv.DEPTH)            \* exhaustive depth
WALKS == ToNat(IOEnv.WALKS)            \* number of pseudo-random walks
STEPS == ToNat(IOEnv.STEPS)            \* and their length
SEED == ToNat(IOEnv.VSEED)
(* the sorts of slots that are filled: all, or those in SORTS, a comma between them *)
RECURSIVE SplitC(_, _, _)
SplitC(s, i, acc) == IF i > Len(s) THEN {acc} \ {""}
                     ELSE IF SubSeq(s, i, i) = "," THEN {acc} \cup SplitC(s, i + 1, "")
                     ELSE SplitC(s, i + 1, acc \o SubSeq(s, i, i))
SORTS == SplitC(IOEnv.SORTS, 1, "")
FillSlots(tree) == IF SORTS = {} THEN Slots(tree) ELSE SelectSeq(Slots(tree), LAMBDA x : x[2] \in SORTS)

(* Park-Miller generator *)
Rnd(s) == LET t == 16807 * (s % 127773) - 2836 * (s \div 127773) IN IF t > 0 THEN t ELSE t + 2147483647
Pick(s, n) == 1 + ((s \div 7) % n)
SeedOf(i) == Rnd(Rnd(1 + (((SEED % 100003) * 7919 + i * 104729) % 2147483000)))

(* pseudo-random trees: templates by group, so that no group drowns the others *)
Groups(sort, d) ==
  CASE sort = "x" -> <<XNames(d), XLits(d), XUnary(d), XArith(d), XCmp(d), XBool(d), XPred(d), XMake(d), XCase(d), XLambda(d), XScalar(d), XAgg(d)>>
    [] sort = "q" -> <<QSelect(d), QSelect(d), QOther(d), QSet(d)>>
    [] sort = "r" -> <<RTable(d), RJoin(d), ROther(d)>>
    [] OTHER -> <<Templates(sort, d)>>

Extensions(tree, d) ==          \* all trees one step away
  LET ss == TLCEval(FillSlots(tree))
  IN UNION {LET ts == TLCEval(Templates(ss[i][2], d)) IN {Put(tree, ss[i][1], ts[j]) : j \in 1..Len(ts)} : i \in 1..Len(ss)}
RandomStep(tree, d, s) ==
  LET ss == TLCEval(FillSlots(tree))
      r1 == Rnd(s)
      r2 == Rnd(r1)
      r3 == Rnd(r2)
      sl == ss[Pick(r1, Len(ss))]
      gs == TLCEval(Groups(sl[2], d))
      g == gs[Pick(r2, Len(gs))]
      new == IF ss = <<>> \/ g = <<>> THEN tree ELSE Put(tree, sl[1], g[Pick(r3, Len(g))])
  IN [tree |-> IF WF(new) THEN new ELSE tree, seed |-> Rnd(r3)]
RandomRoot(root, s) == LET gs == Groups(root, 0)
                           g == gs[Pick(Rnd(s), Len(gs))]
                       IN g[Pick(Rnd(Rnd(s)), Len(g))]

WInit(root) ==
  \/ /\ st_seed = 0 /\ st_depth = 0
     /\ st_tree \in {Templates(root, 0)[i] : i \in 1..Len(Templates(root, 0))}
  \/ /\ st_seed \in {SeedOf(i) : i \in 1..WALKS} /\ st_depth = 0
     /\ st_tree = RandomRoot(root, st_seed)
WNext ==
  \/ /\ st_seed = 0 /\ st_depth < DEPTH
     /\ st_depth' = st_depth + 1 /\ st_seed' = 0
     /\ st_tree' \in Extensions(st_tree, st_depth + 1)
     /\ WF(st_tree')
  \/ /\ st_seed > 0 /\ st_depth < STEPS
     /\ st_depth' = st_depth + 1
     /\ LET r == RandomStep(st_tree, st_depth + 1, Rnd(st_seed)) IN st_tree' = r.tree /\ st_seed' = r.seed
(* states whose tree is worth running: every exhaustive one, the ends of walks *)
Final == st_seed = 0 \/ st_depth = STEPS
=============================================================================
