------------------------------- MODULE MC_Hist --------------------------------
(* The system without an implementation: a heap of graphframes on which every     *)
(* history of at most Depth public operations is executed with the functions of   *)
(* Model.  Checks that every outcome is one Steps allows, that every graphframe    *)
(* stays well formed, and that no operation touches what it may not; emits the     *)
(* histories as cases, to be replayed on the real code.                            *)
EXTENDS Model, Json
CONSTANTS Start, Depth, MaxHeap
VARIABLES heap, grp, hist, bad
vars == <<heap, grp, hist, bad>>

\* the initial graphframes: nodes, ranks (<<>>: single index), rows left out
Inits ==
  CASE Start = "tree" -> <<[ns |-> <<[f |-> "a", pa |-> {}], [f |-> "b", pa |-> {1}], [f |-> "c", pa |-> {1}]>>, ranks |-> <<>>, drop |-> {}],
                           [ns |-> <<[f |-> "a", pa |-> {}], [f |-> "c", pa |-> {1}]>>, ranks |-> <<>>, drop |-> {}]>>
    [] Start = "dag" -> <<[ns |-> <<[f |-> "a", pa |-> {}], [f |-> "b", pa |-> {1}], [f |-> "c", pa |-> {1, 2}]>>, ranks |-> <<>>, drop |-> {}],
                          [ns |-> <<[f |-> "b", pa |-> {}], [f |-> "a", pa |-> {}], [f |-> "c", pa |-> {1, 2}]>>, ranks |-> <<>>, drop |-> {<<2, 0>>}]>>
    [] Start = "dup" -> <<[ns |-> <<[f |-> "a", pa |-> {}], [f |-> "b", pa |-> {1}], [f |-> "b", pa |-> {1}], [f |-> "c", pa |-> {3}]>>, ranks |-> <<>>, drop |-> {}]>>
    [] Start = "ranks" -> <<[ns |-> <<[f |-> "a", pa |-> {}], [f |-> "b", pa |-> {1}], [f |-> "c", pa |-> {2}]>>, ranks |-> <<0, 1>>, drop |-> {}],
                            [ns |-> <<[f |-> "a", pa |-> {}], [f |-> "c", pa |-> {1}]>>, ranks |-> <<0, 1>>, drop |-> {<<1, 1>>}]>>
Ctx == [inc |-> ("time" :> "time (inc)" @@ "total (exc)" :> "total"), name |-> "model"]
GF0(i, h) ==
  LET d == Inits[i]   r == RealOf(d.ns, h)
      ks == IF d.ranks = <<>> THEN {0} ELSE Range(d.ranks)
      keep == {p \in (DOMAIN d.ns) \X ks : <<p[1] - 1, p[2]>> \notin d.drop}
  IN [nodes |-> r.nodes, roots |-> r.roots, gid |-> h, no |-> FALSE, err |-> "", md |-> "", dm |-> "time",
      ixn |-> IF d.ranks = <<>> THEN <<>> ELSE <<"rank">>,
      exc |-> <<"time">>, inc |-> <<"time (inc)", "total">>, cols |-> <<"time", "time (inc)", "total", "name">>,
      rows |-> SortRows(r, {[u |-> r.map[p[1]], ix |-> IF d.ranks = <<>> THEN <<>> ELSE <<IntV(p[2])>>,
                             c |-> <<IntV(2 ^ (p[1] - 1)), IntV(99 + p[1]), IntV(51 - p[1]), MStr(d.ns[p[1]].f)>>] : p \in keep})]
H(i) == "h" \o ToString(i)
Handles == {H(i) : i \in 0..(Cardinality(DOMAIN heap) - 1)}
Num(h) == CHOOSE i \in 0..9 : H(i) = h
Init == /\ heap = [h \in {H(i - 1) : i \in DOMAIN Inits} |-> GF0(CHOOSE i \in DOMAIN Inits : H(i - 1) = h, h)]
        /\ grp = [h \in {H(i - 1) : i \in DOMAIN Inits} |-> h]
        /\ hist = <<>> /\ bad = {}

(* ------------------------------ where they apply ------------------------------ *)
AllRows(s) == RowNodes(s) = Nodes(s)
FullRows(s) == Len(s.rows) = Cardinality(Nodes(s)) * Cardinality({s.rows[i].ix : i \in DOMAIN s.rows})
CanSquash(s) == s.rows # <<>> /\ SquashAcyclic(SquashGraph(s))
CanMerge(s, t) ==
  /\ Metrics(s) = Metrics(t) /\ s.ixn = t.ixn
  /\ s.gid = t.gid \/ (/\ DistinctSiblings(s) /\ DistinctSiblings(t)
                       /\ ~HasCol(s, MissCol) /\ ~HasCol(t, MissCol) /\ SquashAcyclic(UnionQ(s, t)))
GroupQ(s) == LET key(u) == CellOf(s, RowAt(s, <<u, <<>>>>), "name")
                 K == {key(u) : u \in Nodes(s)}
             IN [blocks |-> K, roots |-> K, kids |-> [k \in K |-> {d \in K \ {k} : \E u \in Nodes(s) : key(u) = k
                                                       /\ \E v \in Kids(s, u) : key(v) = d}]]
CanGroup(s) == s.ixn = <<>> /\ AllRows(s) /\ SquashAcyclic(GroupQ(s))

(* ---------------------------------- one step ----------------------------------- *)
Ev(op, in, a, res, chg) == [op |-> op, in |-> in, a |-> a, res |-> res, exc |-> "", chg |-> chg, out |-> <<>>]
ExcArgs(s) == [req |-> <<>>, names |-> [c \in Range(s.inc) |->
   [suffix |-> c = "time (inc)", base |-> IF c = "time (inc)" THEN "time" ELSE c, exc |-> c \o " (exc)"]]]
Preds(s) == {[k |-> "cmp", col |-> "name", op |-> "!=", v |-> MStr(n)] : n \in {"a", "b"}}
            \cup (IF s.ixn = <<>> THEN {} ELSE {[k |-> "ix", name |-> "rank", op |-> "==", v |-> IntV(0)]})
Item(k, h, g, p) == [k |-> k, h |-> Num(h), h2 |-> Num(g), v |-> IF "v" \in DOMAIN p /\ p.k = "cmp" THEN p.v[4] ELSE "",
                     rank |-> "k" \in DOMAIN p /\ p.k = "ix"]
NoP == [k |-> ""]
Do(x, item) ==
  /\ bad' = Err(x, heap, grp, Ctx, Aux0)
  /\ heap' = Put(x.chg, heap)
  /\ grp' = [i \in DOMAIN x.chg \cup DOMAIN grp |-> IF i \in DOMAIN grp THEN grp[i] ELSE NewGrp(x, i, grp)]
  /\ hist' = Append(hist, item)
New == H(Cardinality(DOMAIN heap))
Room == Cardinality(DOMAIN heap) < MaxHeap
Make(op, h, g, a, t, k, p) == Room /\ Do(Ev(op, <<h, g>>, a, New, (New :> t)), Item(k, h, g, p))
Change(op, h, a, t, k) == Do(Ev(op, <<h>>, a, "", (h :> t)), Item(k, h, h, NoP))
\* fresh graphs are named after the step that makes them
Id == "s" \o ToString(Len(hist))
One(h) ==
  LET s == heap[h] IN
  \/ Make("copy", h, h, <<>>, s, "copy", NoP)
  \/ Make("deepcopy", h, h, <<>>, GDeepcopy(s, Id), "deepcopy", NoP)
  \/ \E p \in Preds(s) : LET f == FilterRows(s, p) IN
       /\ f.rows # <<>>
       /\ \/ Make("filter", h, h, [pred |-> p, squash |-> FALSE, upd |-> FALSE], f, "filterns", p)
          \/ CanSquash(f) /\ Make("filter", h, h, [pred |-> p, squash |-> TRUE, upd |-> TRUE], GSquash(Ctx, f, TRUE, Id), "filter", p)
  \/ CanSquash(s) /\ Make("squash", h, h, [upd |-> TRUE], GSquash(Ctx, s, TRUE, Id), "squash", NoP)
  \/ AllRows(s) /\ Change("sum", h, [cols |-> <<"time">>, outs |-> <<"out">>, hasouts |-> TRUE, fn |-> "sum1"], GSums(s, <<"time">>, <<"out">>), "sum")
  \/ AllRows(s) /\ Change("updinc", h, <<>>, GUpdInc(Ctx, s), "updinc")
  \/ FullRows(s) /\ Change("genexc", h, ExcArgs(s), GGenExc(s, [a |-> ExcArgs(s)]), "genexc")
  \/ s.ixn # <<>> /\ Change("drop", h, [fn |-> "sum1"], GDrop(s, "sum1"), "drop")
  \/ CanGroup(s) /\ LET ms == SetToSeq(Metrics(s))
                        a == [key |-> "name", aggs |-> [i \in DOMAIN ms |-> [col |-> ms[i], fn |-> "sum1"]]]
                    IN Make("groupby", h, h, a, GGroupby(s, [a |-> a], Id), "groupby", NoP)
Two(h, g) ==
  LET s == heap[h]   t == heap[g] IN
  /\ CanMerge(s, t)
  /\ \/ h # g /\ LET u == GUnify(s, t, Id) IN Do(Ev("unify", <<h, g>>, <<>>, "", (h :> u[1]) @@ (g :> u[2])), Item("unify", h, g, NoP))
     \/ Make("arith", h, g, [op |-> "add"], GArith(s, t, "add", Id), "arith", NoP)
     \/ h # g /\ Do(Ev("iarith", <<h, g>>, [op |-> "sub"], h, (h :> GArith(s, t, "sub", Id))), Item("iarith", h, g, NoP))
Next == /\ Len(hist) < Depth
        /\ \/ \E h \in Handles : One(h)
           \/ \E h, g \in Handles : Two(h, g)
Spec == Init /\ [][Next]_vars

\* every outcome of the model is one the specification of the operations allows
Consistent == bad = {}
\* what the operations build is well formed, and names its nodes by disjoint ids
AllWF == \A h \in DOMAIN heap : WFErr(heap[h]) = {}
Separate == \A h, g \in DOMAIN heap : IF heap[h].gid = heap[g].gid THEN heap[h].nodes = heap[g].nodes
                                      ELSE Nodes(heap[h]) \cap Nodes(heap[g]) = {}
\* a graphframe changes only by an operation in place on it or one it shares data with
Framed == [][\A h \in DOMAIN heap : heap'[h] = heap[h] \/ hist'[Len(hist')].h = Num(h)
                                    \/ (hist'[Len(hist')].k = "unify" /\ hist'[Len(hist')].h2 = Num(h))]_vars
Grown == [][DOMAIN heap \subseteq DOMAIN heap']_vars
Emit == (Len(hist) = Depth) =>
  PrintT("CASE " \o ToJson([init |-> [i \in DOMAIN Inits |->
     [f |-> [j \in DOMAIN Inits[i].ns |-> Inits[i].ns[j].f],
      e |-> SetToSeq(UNION {{<<p - 1, j - 1>> : p \in Inits[i].ns[j].pa} : j \in DOMAIN Inits[i].ns}),
      ranks |-> Inits[i].ranks, drop |-> SetToSeq(Inits[i].drop)]], ops |-> hist]))
=============================================================================
