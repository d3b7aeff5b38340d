-------------------------------- MODULE MC_Vis --------------------------------
(* Everything a user can do with the interactive tree visualization (Vis) of any  *)
(* small forest, in any order: collapsing and expanding, composing nodes with      *)
(* their parents, pruning, choosing metrics.  Checks that no node is ever lost     *)
(* or shown twice and that the numbers shown account for everything that is not    *)
(* composed; emits the histories as cases for the real code.                       *)
EXTENDS Vis, Json
CONSTANTS N, Depth, Vals
VARIABLES par, w1, w2, v, hist
vars == <<par, w1, w2, v, hist>>
IdSet == 0..(N - 1)
\* forests in preorder: each node below an ancestor-or-self of the one before it
RECURSIVE Line(_, _)
Line(p, u) == IF u = 0 THEN {0} ELSE {u} \cup Line(p, p[u])
Parents == {p \in [1..N -> 0..(N - 1)] : p[1] = 0 /\ \A i \in 2..N : p[i] < i /\ p[i] \in Line(p, i - 1)}
Make(p, a, b) ==
  [ids |-> IdSet, roots |-> SelectSeq([i \in 1..N |-> i - 1], LAMBDA u : p[u + 1] = 0),
   kids |-> [u \in IdSet |-> {c \in IdSet : p[c + 1] = u + 1}],
   met |-> [u \in IdSet |-> [m \in {"m1", "m2"} |-> IntV(IF m = "m1" THEN a[u + 1] ELSE b[u + 1])]],
   nm |-> [u \in IdSet |-> "f" \o ToString(u)], ms |-> {"m1", "m2"}]
UserOps ==
  {[op |-> "vis.toggle", a |-> [id |-> CHOOSE u \in i.of : \A w \in i.of : u <= w, agg |-> i.agg]] :
      i \in {i \in ShownItems(v) : i.up # -1}}
  \cup {[op |-> "vis.compose", a |-> [id |-> CHOOSE u \in i.of : TRUE]] : i \in {i \in ShownItems(v) : i.up # -1 /\ ~i.agg}}
  \cup {[op |-> "vis.prune", a |-> [lo |-> IntV(r[1]), hi |-> IntV(r[2])]] : r \in {<<1, 1>>, <<2, 3>>}}
  \cup {[op |-> "vis.metric", a |-> [m |-> m, primary |-> TRUE]] : m \in {"m1", "m2"}}
  \cup {[op |-> "vis.mass", a |-> [x |-> 0]]}
Init == /\ par \in Parents /\ w1 \in [1..N -> Vals]
        /\ w2 = [i \in 1..N |-> Cardinality({j \in 1..N : i \in Line(par, j)})]
        /\ v = Open(Make(par, w1, w2), "m2", Make(par, w1, w2).roots) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in UserOps : v' = TLCEval(VisNext(v, x, v.F)) /\ hist' = Append(hist, x)
        /\ UNCHANGED <<par, w1, w2>>
Spec == Init /\ [][Next]_vars

\* every node is shown, hidden in one aggregate, or composed with its parent
Aggs == {i \in ShownItems(v) : i.agg}
InAgg(u) == {i \in Aggs : u \in UNION {Standing(v.kids, t) : t \in i.of}}
Accounted == \A u \in IdSet :
  Cardinality({k \in {1, 2, 3} : (k = 1 /\ u \in Shown(v)) \/ (k = 2 /\ u \in v.gone) \/ (k = 3 /\ InAgg(u) # {})}) = 1
  /\ Cardinality(InAgg(u)) <= 1
OnceShown == \A i, j \in ShownItems(v) : i # j => i.of \cap j.of = {}
RootsStay == \A i \in DOMAIN v.F.roots : v.F.roots[i] \in Shown(v)
\* a node is shown below an ancestor of it
Below == \A i \in ShownItems(v) : i.up # -1 => \A u \in i.of : (i.up + 1) \in Line(par, par[u + 1])
\* collapsing a subtree and expanding it again changes nothing
Undone == \A i \in {i \in ShownItems(v) : i.up # -1 /\ ~i.agg} : \A u \in i.of :
  Toggle(Toggle(v, u, FALSE), u, TRUE) = v
\* the exclusive values shown and the figures of the aggregates add up to all that is not composed
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN Zero ELSE LET i == CHOOSE i \in S : TRUE IN NAdd(f[i], Total(f, S \ {i}))
Conserved ==
  NAdd(Total([u \in IdSet |-> v.F.met[u]["m1"]], Shown(v)),
       Total([i \in Aggs |-> NMul(Figure(v, i.of, "m1", FALSE), IntV(Cardinality(i.of)))], Aggs))
    = Total([u \in IdSet |-> v.F.met[u]["m1"]], IdSet \ v.gone)
\* right after pruning the tree shows what was asked for, what leads there, and the roots
Prev == hist[Len(hist)]
Anc(S) == {u \in IdSet : \E w \in S : (u + 1) \in Line(par, w + 1)}
PrunedRight == hist # <<>> /\ Prev.op = "vis.prune" =>
  Shown(v) = {v.F.roots[i] : i \in DOMAIN v.F.roots} \cup Anc(Within(v.F, v.metric, Prev.a.lo, Prev.a.hi))
Start == hist = <<>> => Shown(v) = {v.F.roots[i] : i \in DOMAIN v.F.roots} \cup Anc(NonZero(v.F, v.first))
\* cases: identifiers counted from one, plain numbers
Plain(x) == CASE x.op = "vis.prune" -> [op |-> x.op, a |-> [lo |-> x.a.lo[2], hi |-> x.a.hi[2]]]
              [] x.op \in {"vis.toggle", "vis.compose"} -> [op |-> x.op, a |-> [x.a EXCEPT !.id = @ + 1]]
              [] OTHER -> x
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([p |-> par, v |-> w1, w |-> w2, ops |-> [i \in 1..Depth |-> Plain(hist[i])]]))
=============================================================================
