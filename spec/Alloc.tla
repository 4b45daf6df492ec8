------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Sharing money out over accounts by a priority tree (C13-C15).           *)
(*                                                                         *)
(* A tree is a sequence of nodes, the first being the root.  A node is a   *)
(* record                                                                  *)
(*   k     "leaf", "ord" (ordered) or "wt" (weighted)                      *)
(*   leaf  the account of a leaf (a number), 0 otherwise                   *)
(*   kids  the nodes below, in order       ws  their weights ("wt" only)   *)
(*   mn, mx  limits on what passes the node in this direction, or "inf"    *)
(* Accounts are numbered; lo and hi give what each must and may move in    *)
(* the direction at hand (amounts are never negative here), and gmin/gmax  *)
(* the number of the group whose limit it shares (0: none) with the limits *)
(* Gmin/Gmax of the groups.                                                *)
(*                                                                         *)
(* Money is shared out in two steps: what must be moved first, then what   *)
(* may be.  A step is described by a record                                *)
(*   rem   what each account may still move in this step                   *)
(*   nl    what may still pass each node                                   *)
(*   prev  what each account has moved already                             *)
(*   grp, grem   groups, and what each group may still move                *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Ids(T) == DOMAIN T
Kids(T, n) == {T[n].kids[i] : i \in DOMAIN T[n].kids}
RECURSIVE LeafSeq(_, _)
RECURSIVE LeafSeqs(_, _, _)
LeafSeq(T, n) == IF T[n].k = "leaf" THEN <<T[n].leaf>> ELSE LeafSeqs(T, T[n].kids, 1)
LeafSeqs(T, ks, i) == IF i > Len(ks) THEN <<>> ELSE LeafSeq(T, ks[i]) \o LeafSeqs(T, ks, i + 1)
Leaves(T, n) == LET s == LeafSeq(T, n) IN {s[i] : i \in DOMAIN s}
IsTree(T) == LET s == LeafSeq(T, 1) IN \A i, j \in DOMAIN s : i # j => s[i] # s[j]
SumOf(f, S) == RSumOver(f, S)
FlowOf(T, f, n) == SumOf(f, Leaves(T, n))
MaxOf(f, S) == RMaxSet({f[x] : x \in S})

(* ---- water filling: the level at which clamp(w*L, lo, hi) adds up to a -- *)
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))
AtLevel(K, w, lo, hi, L) == [k \in K |-> Clamp(RMul(w[k], L), lo[k], hi[k])]
TotalAt(K, w, lo, hi, L) == SumOf(AtLevel(K, w, lo, hi, L), K)
RECURSIVE Seek(_, _, _, _, _, _, _, _, _)
Seek(K, w, lo, hi, a, pts, i, p0, f0) ==
  IF i > Len(pts) THEN p0
  ELSE LET f1 == TotalAt(K, w, lo, hi, pts[i]) IN
       IF RLe(a, f1)
       THEN IF REq(f0, f1) THEN p0
            ELSE RAdd(p0, RMul(RSub(pts[i], p0), RDiv(RSub(a, f0), RSub(f1, f0))))
       ELSE Seek(K, w, lo, hi, a, pts, i + 1, pts[i], f1)
Level(K, w, lo, hi, a) ==
  Seek(K, w, lo, hi, a, RSortSet({RDiv(lo[k], w[k]) : k \in K} \cup {RDiv(hi[k], w[k]) : k \in K}), 1,
       "0", TotalAt(K, w, lo, hi, "0"))
\* What each of K ends up with, in all, when the total is a.
Fill(K, w, lo, hi, a) == AtLevel(K, w, lo, hi, Level(K, w, lo, hi, a))

(* ---- what may pass a node ------------------------------------------- *)
RECURSIVE Own(_, _, _)
RECURSIVE Eff(_, _, _)
RECURSIVE OrdCaps(_, _, _, _, _, _)
\* What may pass node n, leaving aside that accounts elsewhere share limits.
Own(T, P, n) ==
  RMax("0", RMin(P.nl[n], IF T[n].k = "leaf" THEN P.rem[T[n].leaf]
                          ELSE RSumSeq(LET e == Eff(T, P, n) IN [i \in DOMAIN T[n].kids |-> e[i]])))
GroupOf(T, P, n) == IF T[n].k = "leaf" THEN P.grp[T[n].leaf] ELSE 0
PrevOf(T, P, n) == SumOf(P.prev, Leaves(T, n))
\* What each kid of n can take of an unlimited amount, limits shared
\* between kids being used up in order, or by weight.
OrdCaps(T, P, n, i, grem, acc) ==
  IF i > Len(T[n].kids) THEN acc
  ELSE LET k == T[n].kids[i]  g == GroupOf(T, P, k)
           c == IF g = 0 THEN Own(T, P, k) ELSE RMin(grem[g], Own(T, P, k))
       IN OrdCaps(T, P, n, i + 1, IF g = 0 THEN grem ELSE [grem EXCEPT ![g] = RSub(@, c)], Append(acc, c))
Eff(T, P, n) ==
  LET ks == T[n].kids IN
  IF T[n].k = "ord" THEN OrdCaps(T, P, n, 1, P.grem, <<>>)
  ELSE LET own == [i \in DOMAIN ks |-> Own(T, P, ks[i])]
           prev == [i \in DOMAIN ks |-> PrevOf(T, P, ks[i])]
           hi == [i \in DOMAIN ks |-> RAdd(prev[i], own[i])]
           gs == {GroupOf(T, P, ks[i]) : i \in DOMAIN ks} \ {0}
           mem == [g \in gs |-> {i \in DOMAIN ks : GroupOf(T, P, ks[i]) = g}]
           fil == [g \in gs |-> Fill(mem[g], T[n].ws, prev, hi,
                                     RMin(SumOf(hi, mem[g]), RAdd(SumOf(prev, mem[g]), P.grem[g])))]
       IN [i \in DOMAIN ks |-> LET g == GroupOf(T, P, ks[i]) IN
             IF g = 0 THEN own[i] ELSE RSub(fil[g][i], prev[i])]

(* ---- sharing an amount out ------------------------------------------ *)
RECURSIVE Share(_, _, _, _)
RECURSIVE ShareKids(_, _, _, _, _)
RECURSIVE OrdShares(_, _, _, _)
OrdShares(caps, a, i, acc) ==
  IF i > Len(caps) THEN acc
  ELSE LET b == RMin(a, caps[i]) IN OrdShares(caps, RSub(a, b), i + 1, Append(acc, b))
WtShares(T, P, n, caps, a) ==
  LET ks == T[n].kids
      pos == {i \in DOMAIN ks : RPos(T[n].ws[i])}
      zer == DOMAIN ks \ pos
      prev == [i \in DOMAIN ks |-> PrevOf(T, P, ks[i])]
      hi == [i \in DOMAIN ks |-> RAdd(prev[i], caps[i])]
      one == [i \in DOMAIN ks |-> "1"]
      apos == RMin(a, SumOf(caps, pos))
      fp == Fill(pos, T[n].ws, prev, hi, RAdd(SumOf(prev, pos), apos))
      fz == Fill(zer, one, prev, hi, RAdd(SumOf(prev, zer), RSub(a, apos)))
  IN [i \in DOMAIN ks |-> RSub(IF i \in pos THEN fp[i] ELSE fz[i], prev[i])]
ShareKids(T, P, ks, sh, i) ==
  IF i > Len(ks) THEN <<>> ELSE Share(T, P, ks[i], sh[i]) \o ShareKids(T, P, ks, sh, i + 1)
\* Pairs of accounts and amounts.
Share(T, P, n, a) ==
  IF T[n].k = "leaf" THEN <<[leaf |-> T[n].leaf, a |-> RMin(a, Own(T, P, n))]>>
  ELSE LET caps == Eff(T, P, n)
           b == RMin(a, RMin(P.nl[n], RSumSeq([i \in DOMAIN T[n].kids |-> caps[i]])))
           sh == IF T[n].k = "ord" THEN OrdShares(caps, b, 1, <<>>) ELSE WtShares(T, P, n, caps, b)
       IN ShareKids(T, P, T[n].kids, sh, 1)
\* The amounts as a function of the accounts A.
Amounts(T, P, a, A) ==
  LET s == Share(T, P, 1, a)
      pos == {[l |-> s[i].leaf, i |-> i] : i \in DOMAIN s}
  IN [x \in A |-> LET I == {p.i : p \in {q \in pos : q.l = x}} IN
                    IF I = {} THEN "0" ELSE s[CHOOSE i \in I : TRUE].a]

(* ---- the two steps --------------------------------------------------- *)
\* A problem Q has T, lo, hi, gmin, gmax, Gmin, Gmax, total (an amount) and
\* out (TRUE when money is taken out).
Accts(Q) == DOMAIN Q.lo
Zero(Q) == [x \in Accts(Q) |-> "0"]
Big(Q) == RAdd("1", RAdd(Q.total, SumOf(Q.lo, Leaves(Q.T, 1))))
RECURSIVE GroupSum(_, _, _)
GroupSum(Q, grp, f) == [g \in {grp[x] : x \in Accts(Q)} \ {0} |-> SumOf(f, {x \in Accts(Q) : grp[x] = g})]
\* A leaf alone in its parent can use all of its group's limit at most.
MinStep(Q) ==
  [rem |-> [x \in Accts(Q) |-> IF Q.gmin[x] = 0 THEN Q.lo[x] ELSE RMin(Q.lo[x], Q.Gmin[Q.gmin[x]])],
   nl |-> [n \in Ids(Q.T) |-> RMin(Big(Q), RMin(Q.T[n].mn, Q.T[n].mx))],
   prev |-> Zero(Q), grp |-> Q.gmin,
   grem |-> [g \in {Q.gmin[x] : x \in Accts(Q)} \ {0} |-> Q.Gmin[g]]]
MinTotal(Q) == IF Q.out THEN SumOf(Q.lo, Leaves(Q.T, 1)) ELSE Q.total
AllocMin(Q) == Amounts(Q.T, MinStep(Q), MinTotal(Q), Accts(Q))
MaxStep(Q, f) ==
  LET gs == GroupSum(Q, Q.gmax, f)
      grem == [g \in DOMAIN gs |-> RMax("0", RSub(Q.Gmax[g], gs[g]))]
      own == [x \in Accts(Q) |-> RMax("0", RSub(RMin(Q.hi[x], RAdd(f[x], Big(Q))), f[x]))]
  IN [rem |-> [x \in Accts(Q) |-> IF Q.gmax[x] = 0 THEN own[x] ELSE RMin(own[x], grem[Q.gmax[x]])],
      nl |-> [n \in Ids(Q.T) |-> RMax("0", RSub(RMin(Q.T[n].mx, RAdd(Big(Q), FlowOf(Q.T, f, n))), FlowOf(Q.T, f, n)))],
      prev |-> f, grp |-> Q.gmax, grem |-> grem]
AllocMax(Q, f) ==
  LET a == Amounts(Q.T, MaxStep(Q, f), RMax("0", RSub(Q.total, SumOf(f, Accts(Q)))), Accts(Q))
  IN [x \in Accts(Q) |-> RAdd(f[x], a[x])]
Ideal(Q) == AllocMax(Q, AllocMin(Q))

(* ---- what an allocation f must satisfy (C13, C14), however it is made -- *)
Le(a, b) == RLe(a, RAdd(b, "1/1000"))
Lt(a, b) == RLt(RAdd(a, "1/1000"), b)
MustTotal(Q) == SumOf(Q.lo, Leaves(Q.T, 1))
\* Money in never exceeds what there is; money out exceeds what is needed
\* only when the accounts must pay more.
WithinTotal(Q, f) == Le(SumOf(f, Accts(Q)), IF Q.out THEN RMax(Q.total, MustTotal(Q)) ELSE Q.total)
WithinOwn(Q, f) == \A x \in Accts(Q) : RLe("0", f[x]) /\ Le(f[x], Q.hi[x])
WithinGroup(Q, f) == \A x \in Accts(Q) : Q.gmax[x] # 0 =>
                       Le(SumOf(f, {y \in Accts(Q) : Q.gmax[y] = Q.gmax[x]}), Q.Gmax[Q.gmax[x]])
WithinNode(Q, f) == \A n \in Ids(Q.T) : Le(FlowOf(Q.T, f, n), Q.T[n].mx)
OnlyTree(Q, f) == \A x \in Accts(Q) \ Leaves(Q.T, 1) : RZero(f[x])
\* Account x can take no more below node n.
NoMoreOwn(Q, f, x) == \/ ~Lt(f[x], Q.hi[x])
                      \/ Q.gmax[x] # 0 /\ ~Lt(SumOf(f, {y \in Accts(Q) : Q.gmax[y] = Q.gmax[x]}), Q.Gmax[Q.gmax[x]])
RECURSIVE NoMore(_, _, _)
NoMore(Q, f, n) == \/ ~Lt(FlowOf(Q.T, f, n), Q.T[n].mx)
                   \/ IF Q.T[n].k = "leaf" THEN NoMoreOwn(Q, f, Q.T[n].leaf)
                      ELSE \A k \in Kids(Q.T, n) : NoMore(Q, f, k)
UsesAll(Q, f) == Lt(SumOf(f, Accts(Q)), Q.total) => NoMore(Q, f, 1)
\* Minimums are met when there is money for them and nodes do not forbid it.
NoNodeLimits(Q) == \A n \in Ids(Q.T) : Q.T[n].mn = "inf" /\ Q.T[n].mx = "inf"
NoMinGroups(Q) == \A x \in Accts(Q) : Q.gmin[x] = 0
MinsFirst(Q, f) == (NoNodeLimits(Q) /\ NoMinGroups(Q)) =>
  IF Q.out \/ RLe(MustTotal(Q), Q.total)
  THEN \A x \in Leaves(Q.T, 1) : Le(Q.lo[x], f[x])
  ELSE \A x \in Leaves(Q.T, 1) : Le(f[x], Q.lo[x])
\* In an ordered node, a later kid gets more than its minimum m only when the
\* earlier ones can take no more.
OrderKept(Q, m, f) == \A n \in Ids(Q.T) : Q.T[n].k = "ord" =>
  \A i, j \in DOMAIN Q.T[n].kids : (i < j) =>
    (Lt(FlowOf(Q.T, m, Q.T[n].kids[j]), FlowOf(Q.T, f, Q.T[n].kids[j])) => NoMore(Q, f, Q.T[n].kids[i]))
\* In a weighted node, a kid that got more than its minimum has no more, per
\* weight, than one that could take more.
WeightKept(Q, m, f) == \A n \in Ids(Q.T) : Q.T[n].k = "wt" =>
  \A i, j \in DOMAIN Q.T[n].kids :
    LET ki == Q.T[n].kids[i]  kj == Q.T[n].kids[j]
        wi == Q.T[n].ws[i]  wj == Q.T[n].ws[j]
        fi == FlowOf(Q.T, f, ki)  fj == FlowOf(Q.T, f, kj)
    IN (i # j /\ RPos(wj) /\ Lt(FlowOf(Q.T, m, ki), fi) /\ ~NoMore(Q, f, kj)) =>
         IF RZero(wi) THEN FALSE ELSE Le(RMul(fi, wj), RMul(fj, wi))
\* Accounts that share a limit are all leaves directly below one node.
Separable(Q) == \A grp \in {Q.gmin, Q.gmax} : \A x, y \in Leaves(Q.T, 1) :
  (x # y /\ grp[x] # 0 /\ grp[x] = grp[y]) =>
     \E n \in Ids(Q.T) : /\ \A k \in Kids(Q.T, n) : Q.T[k].k = "leaf"
                         /\ {x, y} \subseteq {Q.T[k].leaf : k \in Kids(Q.T, n)}
=============================================================================
