------------------------------- MODULE RBTree -------------------------------
(* The algorithm of tree.c over a tree T = [k, c, l, r, p] of functions from  *)
(* node numbers. Node 0 is the shared empty node and node -1 the root, whose  *)
(* left child is the top of the tree. Red is 1, black 0.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Top(T) == T.l[-1]
EmptyTree(N) == [c |-> [i \in -1..N |-> 0], l |-> [i \in -1..N |-> 0], r |-> [i \in -1..N |-> 0], p |-> [i \in -1..N |-> 0]]
(* the key of node i is i: which node holds which key does not matter *)
RotateLeft(T, n) ==
  LET ch == T.r[n]
      g == T.p[n]
      r1 == [T.r EXCEPT ![n] = T.l[ch]]
      p1 == IF T.l[ch] # 0 THEN [T.p EXCEPT ![T.l[ch]] = n] ELSE T.p
      p2 == [p1 EXCEPT ![ch] = g]
      left == n = T.l[g]
      l1 == IF left THEN [T.l EXCEPT ![g] = ch] ELSE T.l
      r2 == IF left THEN r1 ELSE [r1 EXCEPT ![g] = ch]
  IN [T EXCEPT !.l = [l1 EXCEPT ![ch] = n], !.r = r2, !.p = [p2 EXCEPT ![n] = ch]]
RotateRight(T, n) ==
  LET ch == T.l[n]
      g == T.p[n]
      l1 == [T.l EXCEPT ![n] = T.r[ch]]
      p1 == IF T.r[ch] # 0 THEN [T.p EXCEPT ![T.r[ch]] = n] ELSE T.p
      p2 == [p1 EXCEPT ![ch] = g]
      left == n = T.l[g]
      l2 == IF left THEN [l1 EXCEPT ![g] = ch] ELSE l1
      r1 == IF left THEN T.r ELSE [T.r EXCEPT ![g] = ch]
  IN [T EXCEPT !.r = [r1 EXCEPT ![ch] = n], !.l = l2, !.p = [p2 EXCEPT ![n] = ch]]
Colour(T, n, x) == [T EXCEPT !.c[n] = x]
RECURSIVE InsertRepair(_, _)
InsertRepair(T, n) ==
  LET P == T.p[n] IN
  IF T.c[P] # 1 THEN T ELSE
  LET G == T.p[P]
      onLeft == P = T.l[G]
      U == IF onLeft THEN T.r[G] ELSE T.l[G]
  IN IF T.c[U] = 1
     THEN InsertRepair(Colour(Colour(Colour(T, P, 0), U, 0), G, 1), G)
     ELSE IF onLeft
     THEN LET m == IF n = T.r[P] THEN P ELSE n
              T1 == IF n = T.r[P] THEN RotateLeft(T, P) ELSE T
              P1 == T1.p[m]
              T2 == Colour(Colour(T1, P1, 0), T1.p[P1], 1)
          IN InsertRepair(RotateRight(T2, T2.p[P1]), m)
     ELSE LET m == IF n = T.l[P] THEN P ELSE n
              T1 == IF n = T.l[P] THEN RotateRight(T, P) ELSE T
              P1 == T1.p[m]
              T2 == Colour(Colour(T1, P1, 0), T1.p[P1], 1)
          IN InsertRepair(RotateLeft(T2, T2.p[P1]), m)
RECURSIVE Place(_, _, _)
Place(T, k, at) == LET nx == IF k < at THEN T.l[at] ELSE T.r[at] IN IF nx = 0 THEN at ELSE Place(T, k, nx)
Insert(T, k) ==
  LET par == IF Top(T) = 0 THEN -1 ELSE Place(T, k, Top(T))
      T1 == [T EXCEPT !.l[k] = 0, !.r[k] = 0, !.p[k] = par, !.c[k] = 1]
      T2 == IF par = -1 \/ k < par THEN [T1 EXCEPT !.l[par] = k] ELSE [T1 EXCEPT !.r[par] = k]
      T3 == InsertRepair(T2, k)
  IN Colour(T3, Top(T3), 0)
RECURSIVE Leftmost(_, _)
Leftmost(T, n) == IF T.l[n] = 0 THEN n ELSE Leftmost(T, T.l[n])
RECURSIVE DeleteRepair(_, _)
DeleteRepair(T, n) ==
  IF T.c[n] = 1 \/ n = Top(T) THEN Colour(T, n, 0) ELSE
  LET onLeft == n = T.l[T.p[n]]
      P == T.p[n]
      s0 == IF onLeft THEN T.r[P] ELSE T.l[P]
      Ta == IF T.c[s0] = 1
            THEN LET Tx == Colour(Colour(T, s0, 0), P, 1) IN IF onLeft THEN RotateLeft(Tx, P) ELSE RotateRight(Tx, P)
            ELSE T
      Pa == Ta.p[n]
      s1 == IF onLeft THEN Ta.r[Pa] ELSE Ta.l[Pa]
  IN IF Ta.c[Ta.r[s1]] = 0 /\ Ta.c[Ta.l[s1]] = 0
     THEN DeleteRepair(Colour(Ta, s1, 1), Pa)
     ELSE LET far == IF onLeft THEN Ta.r[s1] ELSE Ta.l[s1]
              near == IF onLeft THEN Ta.l[s1] ELSE Ta.r[s1]
              Tb == IF Ta.c[far] = 0
                    THEN LET Tx == Colour(Colour(Ta, near, 0), s1, 1) IN IF onLeft THEN RotateRight(Tx, s1) ELSE RotateLeft(Tx, s1)
                    ELSE Ta
              Pb == Tb.p[n]
              s2 == IF onLeft THEN Tb.r[Pb] ELSE Tb.l[Pb]
              Tc == Colour(Colour(Tb, s2, Tb.c[Pb]), Pb, 0)
              Td == Colour(Tc, IF onLeft THEN Tc.r[s2] ELSE Tc.l[s2], 0)
              Te == IF onLeft THEN RotateLeft(Td, Pb) ELSE RotateRight(Td, Pb)
          IN Colour(Te, Top(Te), 0)
Delete(T, z) ==
  LET y == IF T.l[z] = 0 \/ T.r[z] = 0 THEN z ELSE Leftmost(T, T.r[z])
      x == IF T.l[y] = 0 THEN T.r[y] ELSE T.l[y]
      T1 == [T EXCEPT !.p[x] = T.p[y]]
      yp == T1.p[y]
      T2 == IF T1.p[x] = -1 THEN [T1 EXCEPT !.l[-1] = x]
            ELSE IF y = T1.l[yp] THEN [T1 EXCEPT !.l[yp] = x] ELSE [T1 EXCEPT !.r[yp] = x]
      T3 == IF T2.c[y] = 0 THEN DeleteRepair(T2, x) ELSE T2
      zp == T3.p[z]
      T4 == IF y = z THEN T3
            ELSE LET l1 == [T3.l EXCEPT ![y] = T3.l[z]]
                     r1 == [T3.r EXCEPT ![y] = T3.r[z]]
                     p1 == [[[T3.p EXCEPT ![y] = zp] EXCEPT ![T3.l[z]] = y] EXCEPT ![T3.r[z]] = y]
                     left == z = T3.l[zp]
                 IN [l |-> IF left THEN [l1 EXCEPT ![zp] = y] ELSE l1,
                     r |-> IF left THEN r1 ELSE [r1 EXCEPT ![zp] = y],
                     p |-> p1, c |-> [T3.c EXCEPT ![y] = T3.c[z]]]
  IN [T4 EXCEPT !.l[z] = 0, !.r[z] = 0, !.p[z] = 0, !.c[z] = 0]
(* ---- what a tree must satisfy; K gives the key of a node *)
RECURSIVE Keys(_, _), Sorted(_, _, _, _, _), Black(_, _), Height(_, _)
Keys(T, n) == IF n = 0 THEN {} ELSE {n} \cup Keys(T, T.l[n]) \cup Keys(T, T.r[n])
Sorted(T, K, n, lo, hi) == n = 0 \/ /\ lo < K[n] /\ K[n] < hi
                                    /\ Sorted(T, K, T.l[n], lo, K[n]) /\ Sorted(T, K, T.r[n], K[n], hi)
(* the number of black nodes to any leaf, -1 when it is not the same *)
Black(T, n) == IF n = 0 THEN 1 ELSE LET a == Black(T, T.l[n]) b == Black(T, T.r[n]) IN
               IF a = -1 \/ b = -1 \/ a # b THEN -1 ELSE a + (IF T.c[n] = 0 THEN 1 ELSE 0)
Height(T, n) == IF n = 0 THEN 0 ELSE LET a == Height(T, T.l[n]) b == Height(T, T.r[n]) IN 1 + (IF a > b THEN a ELSE b)
Linked(T, n) == \A m \in Keys(T, n) : /\ T.l[m] # 0 => T.p[T.l[m]] = m
                                      /\ T.r[m] # 0 => T.p[T.r[m]] = m
RedRed(T, n) == \E m \in Keys(T, n) : T.c[m] = 1 /\ (T.c[T.l[m]] = 1 \/ T.c[T.r[m]] = 1)
RB(T, K, n) == /\ Sorted(T, K, n, -100000, 100000) /\ Linked(T, n) /\ Black(T, n) # -1 /\ ~RedRed(T, n)
               /\ n # 0 => T.c[n] = 0 /\ T.p[n] = -1
(* the least number of nodes of a tree of a height *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LeastNodes(h) == IF h = 0 THEN 0 ELSE IF h % 2 = 0 THEN 2 * Pow2(h \div 2) - 2 ELSE 3 * Pow2((h - 1) \div 2) - 2
=============================================================================
