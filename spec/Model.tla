-------------------------------- MODULE Model --------------------------------
(* The operations as functions: the state each of them leaves, computed from    *)
(* the state before.  Steps states what an observed outcome must satisfy; Model *)
(* constructs one such outcome, so that MC_Hist can run the system without an    *)
(* implementation, check that the two agree, and enumerate its histories.        *)
EXTENDS Steps

\* string values: rank in the model's (sorted) string table
Strings == <<"", "a", "b", "c", "function", "name", "type">>
MStr(t) == <<4, (CHOOSE i \in DOMAIN Strings : Strings[i] = t) - 1, 0, t>>
NFrame(n) == <<<<MStr("name"), MStr(n)>>, <<MStr("type"), MStr("function")>>>>

(* -------------------------------- graphs --------------------------------- *)
RECURSIVE MinDepth(_, _, _, _)
MinDepth(kids, dep, fr, d) ==
  IF fr = {} THEN dep
  ELSE LET n == (UNION {kids[u] : u \in fr}) \ (DOMAIN dep \cup fr)
       IN MinDepth(kids, [u \in DOMAIN dep \cup fr |-> IF u \in fr THEN d ELSE dep[u]], n, d + 1)
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
(* q: [blocks, roots, kids, f] with fresh nodes pfx.0, pfx.1, ... in traversal   *)
(* order; key: the order of equal frames (and of everything when byNid)          *)
Realise(q, pfx, byNid, key) ==
  LET g0 == [nodes |-> [b \in q.blocks |-> [f |-> q.f[b], nid |-> key[b], dep |-> 0,
                                            ch |-> SetToSeq(q.kids[b]), pa |-> <<>>]],
             roots |-> SetToSeq(q.roots)]
      o == PreOrder(g0, q.roots, byNid, key)
      id(b) == pfx \o "." \o ToString(Index(o, b) - 1)
      inorder(S) == SetToSortSeq(S, LAMBDA a, b: Index(o, a) < Index(o, b))
      ids(S) == LET s == inorder(S) IN [i \in DOMAIN s |-> id(s[i])]
      dep == MinDepth(q.kids, [u \in {} |-> 0], q.roots, 0)
      back == [n \in {id(b) : b \in q.blocks} |-> CHOOSE b \in q.blocks : id(b) = n]
  IN [map |-> [b \in q.blocks |-> id(b)],
      nodes |-> [n \in DOMAIN back |-> LET b == back[n] IN
                  [f |-> q.f[b], nid |-> Index(o, b) - 1, dep |-> dep[b], ch |-> ids(q.kids[b]),
                   pa |-> ids({a \in q.blocks : b \in q.kids[a]})]],
      roots |-> ids(q.roots)]
Trivial(g) == [blocks |-> Nodes(g), roots |-> RootSet(g), kids |-> [u \in Nodes(g) |-> Kids(g, u)],
               f |-> [u \in Nodes(g) |-> Fr(g, u)]]
NoKey(q) == [b \in q.blocks |-> 0]

\* a model graph: ns[i] = [f |-> name, pa |-> set of smaller indices ({}: a root)]
RealOf(ns, pfx) ==
  Realise([blocks |-> DOMAIN ns, roots |-> {i \in DOMAIN ns : ns[i].pa = {}},
           kids |-> [i \in DOMAIN ns |-> {j \in DOMAIN ns : i \in ns[j].pa}],
           f |-> [i \in DOMAIN ns |-> NFrame(ns[i].f)]], pfx, FALSE, [i \in DOMAIN ns |-> i])
GraphOf(ns, pfx) == LET r == RealOf(ns, pfx) IN [nodes |-> r.nodes, roots |-> r.roots]

RowLt(g, a, b) == LET na == g.nodes[a.u].nid   nb == g.nodes[b.u].nid
                  IN na < nb \/ (na = nb /\ ValSeqLt(a.ix, b.ix))
SortRows(g, S) == SetToSortSeq(S, LAMBDA a, b: RowLt(g, a, b))
\* extends the columns with those of `more' that are new
AddCols(cols, more) == cols \o SelectSeq(more, LAMBDA c: c \notin Range(cols))
SetCol(s, rows, c, val(_)) ==
  LET cols == AddCols(s.cols, <<c>>)
  IN [i \in DOMAIN rows |-> [rows[i] EXCEPT !.c =
        [j \in DOMAIN cols |-> IF cols[j] = c THEN val(rows[i]) ELSE rows[i].c[j]]]]

(* ------------------------------ operations -------------------------------- *)
GDeepcopy(s, h) ==
  LET t == Realise(Trivial(s), h, s.no, NidTie(s))
  IN [s EXCEPT !.nodes = t.nodes, !.roots = [i \in DOMAIN s.roots |-> t.map[s.roots[i]]], !.gid = h,
               !.rows = MapRows(s.rows, t.map)]
GSquash(ctx, s, upd, h) ==
  LET sg == SquashGraph(s)
      t == Realise(sg, h, FALSE, NoKey(sg))
      E == SquashExp(ctx, s, sg, upd)
      incs == IF upd THEN [i \in DOMAIN s.exc |-> ctx.inc[s.exc[i]]] ELSE <<>>
      cols == AddCols(s.cols, incs)
      rows == {[u |-> t.map[k[1]], ix |-> k[2], c |-> [j \in DOMAIN cols |-> E[k][cols[j]]]] : k \in DOMAIN E}
  IN [s EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = h, !.rows = SortRows(t, rows), !.cols = cols,
               !.inc = AddCols(@, incs)]
\* the rows of the left operand on the merged graph, and those only the right one has
GMergeRows(s1, s2, q, map, val(_, _)) ==
  LET ro == RightOnly(s1, s2, q)   lo == LeftOnly(s1, s2, q)
      marked == lo # {} \/ ro # {}
      right == SelectSeq(s2.rows, LAMBDA r: r.u \in ro)
      M == AllMetrics(s1, s2)
      cols == AddCols(AddCols(s1.cols, IF ro = {} THEN <<>> ELSE s2.cols), IF marked THEN <<MissCol>> ELSE <<>>)
      cell1(r, c) == CASE c = MissCol /\ marked -> IntV(IF r.u \in lo THEN 1 ELSE 0)
                       [] c \notin Range(s1.cols) -> NaN
                       [] c \in M -> val(r, c)
                       [] OTHER -> CellOf(s1, r, c)
      cell2(r, c) == CASE c = MissCol -> IntV(2) [] c \in M -> NaN [] c \notin Range(s2.cols) -> NaN [] OTHER -> CellOf(s2, r, c)
      mk(r, cell(_, _)) == [u |-> map[q.cls[r.u]], ix |-> r.ix, c |-> [j \in DOMAIN cols |-> cell(r, cols[j])]]
  IN [cols |-> cols,
      rows |-> {mk(s1.rows[i], cell1) : i \in DOMAIN s1.rows} \cup {mk(right[i], cell2) : i \in DOMAIN right}]
\* <<left, right>> after unify
GUnify(s1, s2, h) ==
  IF s1.gid = s2.gid THEN <<s1, s2>> ELSE
  LET q == UnionQ(s1, s2)
      t == Realise(q, h, FALSE, NoKey(q))
      mr == GMergeRows(s1, s2, q, t.map, LAMBDA r, c: CellOf(s1, r, c))
      both == [nodes |-> t.nodes, roots |-> t.roots]
  IN <<[s1 EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = h, !.no = FALSE, !.cols = mr.cols, !.rows = SortRows(both, mr.rows)],
       [s2 EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = h, !.no = FALSE,
                  !.rows = [i \in DOMAIN s2.rows |-> [s2.rows[i] EXCEPT !.u = t.map[q.cls[@]]]]]>>
GArith(s1, s2, op, h) ==
  IF s1.gid = s2.gid
  THEN [s1 EXCEPT !.rows = [i \in DOMAIN s1.rows |-> [s1.rows[i] EXCEPT !.c = [j \in DOMAIN s1.cols |->
          IF s1.cols[j] \in AllMetrics(s1, s2) THEN SharedOp(s1, s2, s1.rows[i], s1.cols[j], op, Key(s1.rows[i]))
          ELSE s1.rows[i].c[j]]]]]
  ELSE LET q == UnionQ(s1, s2)
           t == Realise(q, h, FALSE, NoKey(q))
           val(r, c) == LET m == SelectSeq(s2.rows, LAMBDA p: q.cls[p.u] = q.cls[r.u] /\ p.ix = r.ix)
                        IN IF m # <<>> /\ HasCol(s2, c) THEN OpVal(op, CellOf(s1, r, c), CellOf(s2, m[1], c)) ELSE CellOf(s1, r, c)
           mr == GMergeRows(s1, s2, q, t.map, val)
       IN [s1 EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = h, !.no = FALSE, !.cols = mr.cols, !.rows = SortRows(t, mr.rows)]
GSums(s, cols, outs) ==
  FoldLeft(LAMBDA t, i: [t EXCEPT !.rows = SetCol(t, t.rows, outs[i], LAMBDA r: SubSum(s, cols[i], "sum1", Key(r))),
                                  !.cols = AddCols(@, <<outs[i]>>)],
           s, [i \in DOMAIN cols |-> i])
GUpdInc(ctx, s) ==
  LET outs == [i \in DOMAIN s.exc |-> ctx.inc[s.exc[i]]]
  IN [GSums(s, s.exc, outs) EXCEPT !.inc = AddCols(@, outs)]
GGenExc(s, x) ==
  LET gp == SetToSeq(GenPairs(s, x))
  IN FoldLeft(LAMBDA t, i: LET n == GenName(s, x, i) IN
                [t EXCEPT !.rows = SetCol(t, t.rows, n, LAMBDA r: ExcOf(s, s.inc[i], Key(r))),
                          !.cols = AddCols(@, <<n>>), !.exc = AddCols(@, <<n>>)], s, gp)
GDrop(s, fn) ==
  LET us == SetToSortSeq(RowNodes(s), LAMBDA a, b: s.nodes[a].nid < s.nodes[b].nid)
      row(u) == LET rs == RowsOf(s, u) IN
                [u |-> u, ix |-> <<>>, c |-> [j \in DOMAIN s.cols |->
                   IF s.cols[j] \in Metrics(s) THEN AggBy(fn, [i \in DOMAIN rs |-> rs[i].c[j]]) ELSE rs[1].c[j]]]
  IN [s EXCEPT !.ixn = <<>>, !.rows = [i \in DOMAIN us |-> row(us[i])]]
GGroupby(s, x, h) ==
  LET key(u) == CellOf(s, RowAt(s, <<u, <<>>>>), x.a.key)
      G == {key(u) : u \in Nodes(s)}
      mem(k) == {u \in Nodes(s) : key(u) = k}
      q == [blocks |-> G, roots |-> {k \in G : \E u \in mem(k) : Pars(s, u) = {}},
            kids |-> [k \in G |-> {d \in G \ {k} : \E u \in mem(k) : Kids(s, u) \cap mem(d) # {}}],
            f |-> [k \in G |-> <<<<MStr("name"), k>>, <<MStr("type"), MStr(x.a.key)>>>>]]
      t == Realise(q, h, FALSE, NoKey(q))
      cols == AddCols([i \in DOMAIN x.a.aggs |-> x.a.aggs[i].col], <<"name">>)
      cell(k, c) == LET rs == SelectSeq(s.rows, LAMBDA r: CellOf(s, r, x.a.key) = k) IN
                    IF c = "name" THEN k
                    ELSE LET i == Index([j \in DOMAIN x.a.aggs |-> x.a.aggs[j].col], c)
                         IN AggBy(x.a.aggs[i].fn, [j \in DOMAIN rs |-> CellOf(s, rs[j], c)])
      rows == {[u |-> t.map[k], ix |-> <<>>, c |-> [j \in DOMAIN cols |-> cell(k, cols[j])]] : k \in G}
  IN [s EXCEPT !.nodes = t.nodes, !.roots = t.roots, !.gid = h, !.no = FALSE, !.cols = cols, !.rows = SortRows(t, rows)]
=============================================================================
