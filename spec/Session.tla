------------------------------- MODULE Session -------------------------------
(* Long histories of one caller: the same tree built and read several times, two   *)
(* of the copies spoiled by the caller, a neighbouring tree, and pseudo-random      *)
(* calls in between.  Everything the caller holds is looked at after every call.    *)
EXTENDS Equality, Walk, Families

Hold(n) == [E0 EXCEPT !.op = "equals", !.o = n[1], !.ref = n[2], !.cl = <<"equal">>]
Wrapped(w, i, j) == IF w = "query" THEN N("Union", <<"ALL", "", "">>, <<List(<<>>), List(<<>>), PyRef(i), PyRef(j)>>) ELSE N("Array", <<>>, <<PyRef(i), PyRef(j)>>)
(* calls on the objects 1, 2 (n), 5 (a neighbour of n) and 6 (made of 1 and 2); 7 (n again) is resolved, which fills in types *)
OneCall(w, bad, r) ==
  LET o == <<1, 2, 5, 6>>[1 + ((r \div 64) % 4)]  p == <<1, 2, 5, 6>>[1 + ((r \div 256) % 4)]
  IN CASE r % 16 \in 0..3 -> Again(w, o, "compact", 4)
       [] r % 16 \in {4, 5} -> Again(w, o, "pretty", 4)
       [] r % 16 = 6 -> Again(w, o, "pretty", <<0, 1, 2, 8>>[1 + ((r \div 16) % 4)])
       [] r % 16 \in {7, 8} -> StrOf(w, o)
       [] r % 16 \in {9, 10} -> Hold(<<o, p>>)
       [] r % 16 \in {11, 12} -> Visit(o)
       [] r % 16 = 13 -> Parse0(w, bad, <<"tree">>)
       [] r % 16 = 14 -> IF w = "query" THEN [E0 EXCEPT !.op = "resolve", !.o = 7] ELSE [E0 EXCEPT !.op = "dtype", !.o = o]
       [] OTHER -> PyOp(Wrapped(w, o, p), <<"spelled">>)
RECURSIVE SomeCalls(_, _, _, _)
SomeCalls(w, bad, r, k) == IF k = 0 THEN <<>> ELSE <<OneCall(w, bad, r \div 7)>> \o SomeCalls(w, bad, Rnd(r), k - 1)
SessionPlan(n, t, bad, seed) ==
  LET w == WhatOf(n)
      ms == SetToSeq(LocalMut(n))
      other == IF ms = <<>> THEN n ELSE ms[Pick(seed, Len(ms))]
  IN <<Make(n, <<"built">>), Parse0(w, t, <<"tree">>), Load(w, t), Make(n, <<"built">>), Make(other, <<>>), PyOp(Wrapped(w, 1, 2), <<"spelled">>), Make(n, <<"built">>)>>
     \o SomeCalls(w, bad, Rnd(seed), 8)
     \o <<Poke(3), Poke(4)>>
     \o SomeCalls(w, bad, Rnd((Rnd(seed) % 1000003) + 5), 4)
     \o <<Parse0(w, t, <<"tree">>), Make(n, <<"built">>), Again(w, 1, "compact", 4), Again(w, 2, "pretty", 4), Hold(<<1, 2>>)>>
=============================================================================
