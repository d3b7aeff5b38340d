------------------------------ MODULE MC_Graphs ------------------------------
(* Grows every rooted acyclic call graph of at most N nodes over the frame names *)
(* Names, node by node; then (Mode "squash") picks the nodes that keep a row, or  *)
(* ("pats") the graph's queries.  Checks the specification's operators against     *)
(* independent definitions and each other, and emits every state as a case.        *)
EXTENDS Model, Json
CONSTANTS N, Names, Mode, PatLen
VARIABLES ns, kept, done
vars == <<ns, kept, done>>
Init == \E f \in Names : ns = <<[f |-> f, pa |-> {}]>> /\ kept = {} /\ done = FALSE
Grow == /\ ~done /\ Len(ns) < N
        /\ \E f \in Names, pa \in SUBSET DOMAIN ns : ns' = Append(ns, [f |-> f, pa |-> pa])
        /\ UNCHANGED <<kept, done>>
Close == /\ ~done /\ Mode # "graph"
         /\ done' = TRUE
         /\ IF Mode = "squash" THEN kept' \in SUBSET DOMAIN ns \ {{}} ELSE kept' = DOMAIN ns
         /\ UNCHANGED ns
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars

G == GraphOf(ns, "g")
(* -------------------------- traversal and numbering ------------------------- *)
Shared(g) == \E u \in Nodes(g) : Len(g.nodes[u].pa) > 1
Sum(f, S) == FoldSet(LAMBDA x, a: a + f[x], 0, S)
Traversal ==
  LET g == G   pre == PreOrder(g, RootSet(g), FALSE, NidTie(g))   post == PostOrder(g, RootSet(g), FALSE, NidTie(g))
      at(s, u) == Index(s, u)
  IN /\ Range(pre) = Nodes(g) /\ NoDup(pre) /\ Range(post) = Nodes(g) /\ NoDup(post)
     \* a node comes after the first of its parents, in postorder before all of its ancestors
     /\ \A u \in Nodes(g) \ RootSet(g) : \E p \in Pars(g, u) : at(pre, p) < at(pre, u)
     /\ \A e \in Edges(g) : at(post, e[2]) < at(post, e[1])
     /\ Sum([u \in Nodes(g) |-> Arrivals(g, g.roots, pre, u)], Nodes(g)) = Len(g.roots) + Cardinality(Edges(g))
     /\ IsTree(g) <=> (Len(g.roots) = 1 /\ Cardinality(Edges(g)) = Cardinality(Nodes(g)) - 1)
     /\ Numbered(g, FALSE) /\ Numbered(g, TRUE) /\ DepthOK(g) /\ Mirrored(g) /\ Acyclic(g)
     \* once numbered in traversal order, following the numbers is the same traversal
     /\ PreOrder(g, RootSet(g), TRUE, NidTie(g)) = pre
     /\ (IsTree(g) => \A u \in Nodes(g) : Cardinality({q \in NodePaths(g) : q[Len(q)] = u}) = 1)

(* ---------------------------------- merging ---------------------------------- *)
QG(q) == [nodes |-> [b \in q.blocks |-> [f |-> q.f[b], nid |-> 0, dep |-> 0, ch |-> SetToSeq(q.kids[b]), pa |-> <<>>]],
          roots |-> SetToSeq(q.roots)]
BlockPathSet(q) == UNION {BlockNames(q)[b] : b \in q.blocks}
Merging ==
  LET g == G   q == QuotientOf(g) IN
  SquashAcyclic(q) =>
     /\ DistinctSiblings(QG(q))
     /\ \A b \in q.blocks : Cardinality({Fr(g, u) : u \in b}) = 1
     /\ CallPaths(g) \subseteq BlockPathSet(q)
     /\ (~Shared(g) => CallPaths(g) = BlockPathSet(q))
     /\ (DistinctSiblings(g) => \A b \in q.blocks : Cardinality(b) = 1)
     \* merging again changes nothing
     /\ \A b \in QuotientOf(QG(q)).blocks : Cardinality(b) = 1
\* graphs without shared nodes can always be merged
TreesMerge == ~Shared(G) => SquashAcyclic(QuotientOf(G))

(* ---------------------------------- squashing --------------------------------- *)
R0 == RealOf(ns, "g")
Ctx == [inc |-> [time |-> "time (inc)"], name |-> "model"]
\* the graphframe: exclusive times are powers of two, so that sums show their terms
GF == [nodes |-> R0.nodes, roots |-> R0.roots, gid |-> "g", no |-> FALSE, err |-> "", md |-> "", dm |-> "time",
       ixn |-> <<>>, exc |-> <<"time">>, inc |-> <<"time (inc)">>, cols |-> <<"time", "time (inc)", "name">>,
       rows |-> SortRows(R0, {[u |-> R0.map[i], ix |-> <<>>, c |-> <<IntV(2 ^ (i - 1)), IntV(100 + i), MStr(ns[i].f)>>] : i \in kept})]
SqCase == LET s == GF   sg == SquashGraph(s) IN SquashAcyclic(sg)
Proj(s, p) == SelectSeq(p, LAMBDA u: u \in RowNodes(s))
Squashing ==
  (done /\ Mode = "squash") =>
  LET s == GF   sg == SquashGraph(s) IN
  /\ ~Shared(s) => SquashAcyclic(sg)
  /\ kept = DOMAIN ns => sg.blocks = QuotientOf(s).blocks
  /\ SquashAcyclic(sg) =>
     LET t == GSquash(Ctx, s, TRUE, "t")
         PP == {FramesOf(s, Proj(s, p)) : p \in NodePaths(s)} \ {<<>>}
         col(r, c) == CellOf(t, r, c)[2]
     IN \* the call paths are those of the graph with the other nodes taken out
        /\ PP \subseteq BlockPathSet(sg)
        /\ ~Shared(s) => PP = BlockPathSet(sg)
        \* the clauses admit the outcome that the model constructs
        /\ SquashErr(Ctx, s, t, TRUE) = {} /\ SquashErr(Ctx, s, GSquash(Ctx, s, FALSE, "t"), FALSE) = {}
        \* no time is lost or invented
        /\ Sum([i \in DOMAIN t.rows |-> col(t.rows[i], "time")], DOMAIN t.rows) = Sum([i \in kept |-> 2 ^ (i - 1)], kept)
        /\ ~Shared(s) => \A i \in DOMAIN t.rows : LET r == t.rows[i] IN
              col(r, "time (inc)") = col(r, "time")
                + Sum([k \in Kids(t, r.u) |-> col(RowAt(t, <<k, <<>>>>), "time (inc)")], Kids(t, r.u))
        \* what is exclusive follows from what is inclusive
        /\ ~Shared(s) => \A i \in DOMAIN t.rows : ExcOf(t, "time (inc)", Key(t.rows[i])) = CellOf(t, t.rows[i], "time")
        \* squashing again changes nothing
        /\ LET w == GSquash(Ctx, t, TRUE, "w") IN
           GraphEq(t, w) /\ Len(t.rows) = Len(w.rows)
           /\ [i \in DOMAIN t.rows |-> t.rows[i].c] = [i \in DOMAIN w.rows |-> w.rows[i].c]

(* ----------------------------------- queries ---------------------------------- *)
(* the matching automaton against the enumeration of all downward paths            *)
Items == {<<q, f>> : q \in {".", "*", "+", "2"}, f \in Names \cup {""}}
RECURSIVE Pats(_)
Pats(n) == IF n = 0 THEN {<<>>} ELSE {Append(p, i) : p \in Pats(n - 1), i \in Items}
AllPats == UNION {Pats(n) : n \in 1..PatLen}
Holds(g, f) == {u \in Nodes(g) : f = "" \/ Fr(g, u) = NFrame(f)}
ToPat(g, p) == Expand([i \in DOMAIN p |-> [q |-> IF p[i][1] = "2" THEN "n" ELSE p[i][1], n |-> 2, p |-> Holds(g, p[i][2])]])
Matching ==
  (done /\ Mode = "pats") =>
  LET g == G IN
  \A p \in AllPats : LET e == ToPat(g, p)   m == Matched(g, e) IN
     /\ m = MatchedByPaths(g, e)
     \* a star in front of or behind a pattern only adds nodes
     /\ m \subseteq Matched(g, <<[q |-> "*", p |-> Nodes(g)]>> \o e)
     /\ m \subseteq Matched(g, Append(e, [q |-> "*", p |-> Nodes(g)]))

(* ------------------------------------ cases ------------------------------------ *)
Edge == UNION {{<<p - 1, i - 1>> : p \in ns[i].pa} : i \in DOMAIN ns}
Case == [f |-> [i \in DOMAIN ns |-> ns[i].f], e |-> SetToSeq(Edge)]
Emit == CASE Mode = "graph" -> PrintT("CASE " \o ToJson(Case))
          [] Mode = "squash" -> (done /\ SqCase => PrintT("CASE " \o ToJson(Case @@ [kept |-> SetToSeq({i - 1 : i \in kept})])))
          [] Mode = "pats" -> (done => PrintT("CASE " \o ToJson(Case @@ [pats |-> SetToSeq(AllPats)])))
=============================================================================
