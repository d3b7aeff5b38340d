------------------------------- MODULE MC_Pairs -------------------------------
(* All pairs of rooted acyclic call graphs of at most N nodes over Names whose    *)
(* siblings have distinct frames, with (Mode "arith") every choice of rows.        *)
EXTENDS Model, Json
CONSTANTS N, Names, Mode
VARIABLES a, b, ka, kb, turn
vars == <<a, b, ka, kb, turn>>
Init == /\ \E f, g \in Names : a = <<[f |-> f, pa |-> {}]>> /\ b = <<[f |-> g, pa |-> {}]>>
        /\ ka = {} /\ kb = {} /\ turn = 1
\* no new node may repeat a sibling's frame
May(ns, f, pa) == \A i \in DOMAIN ns : ns[i].f = f => IF pa = {} THEN ns[i].pa # {} ELSE pa \cap ns[i].pa = {}
GrowOf(ns, t) == {Append(ns, [f |-> f, pa |-> pa]) : f \in Names, pa \in SUBSET DOMAIN ns}
OK(ns) == May(SubSeq(ns, 1, Len(ns) - 1), ns[Len(ns)].f, ns[Len(ns)].pa)
Next == \/ turn = 1 /\ Len(a) < N /\ (\E n \in {x \in GrowOf(a, 1) : OK(x)} : a' = n) /\ UNCHANGED <<b, ka, kb, turn>>
        \/ turn = 1 /\ turn' = 2 /\ UNCHANGED <<a, b, ka, kb>>
        \/ turn = 2 /\ Len(b) < N /\ (\E n \in {x \in GrowOf(b, 2) : OK(x)} : b' = n) /\ UNCHANGED <<a, ka, kb, turn>>
        \/ turn = 2 /\ turn' = 3
           /\ (IF Mode = "arith" THEN /\ ka' \in SUBSET DOMAIN a \ {{}} /\ kb' \in SUBSET DOMAIN b \ {{}}
               ELSE ka' = DOMAIN a /\ kb' = DOMAIN b)
           /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

Done == turn = 3
GFof(ns, kept, pfx) ==
  LET r == RealOf(ns, pfx) IN
  [nodes |-> r.nodes, roots |-> r.roots, gid |-> pfx, no |-> FALSE, err |-> "", md |-> "", dm |-> "time",
   ixn |-> <<>>, exc |-> <<"time">>, inc |-> <<"time (inc)">>, cols |-> <<"time", "time (inc)", "name">>,
   rows |-> SortRows(r, {[u |-> r.map[i], ix |-> <<>>, c |-> <<IntV(2 ^ (i - 1)), IntV(100 + i), MStr(ns[i].f)>>] : i \in kept})]
A == GFof(a, ka, "a")
B2 == GFof(b, kb, "b")
Bijections(S, D) == {f \in [S -> D] : \A x, y \in S : f[x] = f[y] => x = y}
Shared(g) == \E u \in Nodes(g) : Len(g.nodes[u].pa) > 1
PathSet(q) == UNION {BlockNames(q)[x] : x \in q.blocks}
Named(q) == {BlockNames(q)[x] : x \in q.blocks}

(* equality as computed from call paths is the existence of an isomorphism         *)
Equality ==
  (Done /\ Mode = "graph") =>
  LET g == A   h == B2 IN
  /\ GraphEq(g, h) <=> \E m \in Bijections(Nodes(g), Nodes(h)) : IsIso(g, h, m)
  /\ GraphEq(g, g) /\ (GraphEq(g, h) <=> GraphEq(h, g))
  /\ GraphEq(g, h) => CallPaths(g) = CallPaths(h)
Unions ==
  (Done /\ Mode = "graph") =>
  LET g == A   h == B2   q == UnionQ(g, h) IN
  /\ (~Shared(g) /\ ~Shared(h)) => SquashAcyclic(q)
  /\ SquashAcyclic(q) =>
     /\ CallPaths(g) \cup CallPaths(h) \subseteq PathSet(q)
     /\ (~Shared(g) /\ ~Shared(h)) => CallPaths(g) \cup CallPaths(h) = PathSet(q)
     \* neither order of the operands nor a repeated operand matters
     /\ Named(q) = Named(UnionQ(h, g))
     /\ GraphEq(g, h) => Named(q) = SharedPaths(g)
     /\ Named(UnionQ(g, g)) = SharedPaths(g)
     \* the clauses admit what the model constructs
     /\ LET t == Realise(q, "u", FALSE, NoKey(q))
            g2 == [A EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = "u", !.rows = <<>>]
            old == SetToSeq(Nodes(g) \cup Nodes(h))
        IN UnionErr(g, h, g2, [exc |-> "", a |-> [map |-> [i \in DOMAIN old |-> [o |-> old[i], n |-> t.map[q.cls[old[i]]]]]]]) = {}
Col(t, r, c) == CellOf(t, r, c)
Arithmetic ==
  (Done /\ Mode \in {"arith", "arithfull"} /\ SquashAcyclic(UnionQ(A, B2))) =>
  LET u == GUnify(A, B2, "u")
      sum == GArith(A, B2, "add", "s")
      rsum == GArith(B2, A, "add", "r")
      Tot(t, c) == FoldSet(LAMBDA k, x: IF IsNaN(Col(t, RowAt(t, k), c)) THEN x ELSE x + Col(t, RowAt(t, k), c)[2], 0, Keys(t))
  IN /\ UnifyErr(A, B2, u[1], u[2], [exc |-> ""]) = {}
     /\ ArithErr(A, B2, sum, [exc |-> "", a |-> [op |-> "add"]]) = {}
     /\ \A op \in {"sub", "mul", "div"} : ArithErr(A, B2, GArith(A, B2, op, "s"), [exc |-> "", a |-> [op |-> op]]) = {}
     \* both sums have the same structure and the same rows of nodes
     /\ GraphEq(sum, rsum)
     \* where both operands have a row, sums agree in either order; elsewhere the
     \* left value, and missing where only the right has one
     /\ LET n1 == PathNames(sum)   n2 == PathNames(rsum) IN
        \A i \in DOMAIN sum.rows : \A j \in DOMAIN rsum.rows :
          LET r == sum.rows[i]   w == rsum.rows[j] IN
          (n1[r.u] = n2[w.u] /\ ~IsNaN(Col(sum, r, "time")) /\ ~IsNaN(Col(rsum, w, "time"))) =>
             Col(sum, r, "time") = Col(rsum, w, "time")
     \* a - a is zero, a / a one
     /\ \A i \in DOMAIN A.rows : /\ GArith(A, A, "sub", "z").rows[i].c[1] = Zero
                                 /\ GArith(A, A, "div", "z").rows[i].c[1] = IntV(1)
Edge(ns) == UNION {{<<p - 1, i - 1>> : p \in ns[i].pa} : i \in DOMAIN ns}
Case(ns, k) == [f |-> [i \in DOMAIN ns |-> ns[i].f], e |-> SetToSeq(Edge(ns)), kept |-> SetToSeq({i - 1 : i \in k})]
Emit == (Done /\ SquashAcyclic(UnionQ(A, B2))) => PrintT("CASE " \o ToJson([a |-> Case(a, ka), b |-> Case(b, kb)]))
=============================================================================
