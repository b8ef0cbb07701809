-------------------------------- MODULE DHash --------------------------------
(* The lookup table of util/dhash.c: a Robin Hood hash over N buckets, checked to be  *)
(* a finite map.  tab is what is stored; map, live and gone are what a user knows:     *)
(* what was put in and not taken out, and what became of every value ever handed over. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Sizes, MaxLoad, Home   \* Sizes: bucket counts in order; Home[n][k]: first bucket of k in n buckets
VARIABLES tab, sz, map, gone, nid
dvars == <<tab, sz, map, gone, nid>>
None == [x \in {} |-> 0]
Unused == [k |-> "", i |-> 0, p |-> 0]
N == Sizes[sz]
Cap(n) == MaxLoad[n]
Next1(b, n) == (b + 1) % n
\* where the probing for k ends: at its bucket, or at the first bucket that shows it is not there
RECURSIVE Seek(_, _, _, _, _)
Seek(t, n, k, b, p) == IF t[b].p = 0 \/ p > t[b].p THEN n
                       ELSE IF t[b].k = k THEN b ELSE Seek(t, n, k, Next1(b, n), p + 1)
Find(t, n, k) == Seek(t, n, k, Home[n][k], 1)        \* n: not there
\* put an item whose probing arrives at b with count p
RECURSIVE Put(_, _, _, _, _)
Put(t, n, e, b, p) ==
  IF t[b].p = 0 THEN [t EXCEPT ![b] = [e EXCEPT !.p = p]]
  ELSE IF t[b].k = e.k THEN [t EXCEPT ![b].i = e.i]
  ELSE IF t[b].p < p THEN Put([t EXCEPT ![b] = [e EXCEPT !.p = p]], n, t[b], Next1(b, n), t[b].p + 1)    \* take from the rich
  ELSE Put(t, n, e, Next1(b, n), p + 1)
Add(t, n, k, i) == Put(t, n, [k |-> k, i |-> i, p |-> 0], Home[n][k], 1)
\* close the gap at b
RECURSIVE Shift(_, _, _)
Shift(t, n, b) == LET c == Next1(b, n) IN
  IF t[c].p <= 1 THEN [t EXCEPT ![b] = Unused] ELSE Shift([t EXCEPT ![b] = [t[c] EXCEPT !.p = @ - 1]], n, c)
Used(t, n) == Cardinality({b \in 0..n - 1 : t[b].p # 0})
RECURSIVE Rehash(_, _, _, _)
Rehash(t, n, m, b) == IF b = n THEN [x \in 0..m - 1 |-> Unused]
                      ELSE LET r == Rehash(t, n, m, b + 1) IN IF t[b].p = 0 THEN r ELSE Add(r, m, t[b].k, t[b].i)
Place(t, s, k, i) == /\ tab' = Add(t, Sizes[s], k, i) /\ sz' = s /\ nid' = nid + 1
                     /\ gone' = IF k \in DOMAIN map THEN gone \cup {map[k]} ELSE gone
                     /\ map' = [x \in DOMAIN map \cup {k} |-> IF x = k THEN i ELSE map[x]]
Refused == gone' = gone \cup {nid} /\ nid' = nid + 1 /\ UNCHANGED <<tab, sz, map>>     \* the caller keeps it
Insert(k, grows) ==
  IF Used(tab, N) < Cap(N) THEN Place(tab, sz, k, nid)
  ELSE IF grows /\ sz < Len(Sizes) THEN Place(Rehash(tab, N, Sizes[sz + 1], 0), sz + 1, k, nid)
  ELSE IF Find(tab, N, k) < N THEN Place(tab, sz, k, nid) ELSE Refused
Remove(k) ==
  IF Find(tab, N, k) = N THEN UNCHANGED dvars
  ELSE LET b == Find(tab, N, k) IN
       /\ gone' = gone \cup {tab[b].i} /\ tab' = Shift(tab, N, b)
       /\ map' = [x \in DOMAIN map \ {k} |-> map[x]] /\ UNCHANGED <<sz, nid>>
\* properties
Finds == \A k \in Keys : LET b == Find(tab, N, k) IN IF k \in DOMAIN map THEN b < N /\ tab[b].i = map[k] ELSE b = N
OnceEach == /\ Used(tab, N) = Cardinality(DOMAIN map)
            /\ {<<tab[b].k, tab[b].i>> : b \in {c \in 0..N - 1 : tab[c].p # 0}} = {<<k, map[k]>> : k \in DOMAIN map}
Accounted == {map[k] : k \in DOMAIN map} \cap gone = {} /\ {map[k] : k \in DOMAIN map} \cup gone = 1..nid - 1
\* distances from home never decrease by more than the walk allows, and stay below the table size
Ordered == \A b \in 0..N - 1 : /\ tab[b].p < N
                               /\ tab[b].p # 0 => Home[N][tab[b].k] = (b + N - (tab[b].p - 1)) % N
                               /\ tab[Next1(b, N)].p > 1 => tab[b].p >= tab[Next1(b, N)].p - 1
=============================================================================
