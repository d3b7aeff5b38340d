------------------------------- MODULE Frames --------------------------------
(* GraphFrames.  A graphframe is a call graph (see CallGraph) extended with   *)
(*   rows : sequence of [u |-> node id, ix |-> other index values, c |-> cells]*)
(*   cols : column names (parallel to every row's c)                          *)
(*   ixn  : names of the index levels other than "node"                       *)
(*   exc, inc : metric lists      dm : default metric    md : metadata text   *)
(*   gid  : identity of the Graph object      no : node_ordering flag         *)
EXTENDS CallGraph

ColIdx(gf, name) == CHOOSE i \in DOMAIN gf.cols : gf.cols[i] = name
HasCol(gf, name) == name \in Range(gf.cols)
CellOf(gf, row, name) == row.c[ColIdx(gf, name)]
Metrics(gf) == Range(gf.exc) \cup Range(gf.inc)
RowNodes(gf) == {gf.rows[i].u : i \in DOMAIN gf.rows}
Key(row) == <<row.u, row.ix>>
Keys(gf) == {Key(gf.rows[i]) : i \in DOMAIN gf.rows}
KeysUnique(gf) == Cardinality(Keys(gf)) = Len(gf.rows)
RowAt(gf, k) == gf.rows[CHOOSE i \in DOMAIN gf.rows : Key(gf.rows[i]) = k]
RowsOf(gf, u) == SelectSeq(gf.rows, LAMBDA r: r.u = u)
\* a column as a function from row key to value
ColFn(gf, name) == LET j == ColIdx(gf, name)
                   IN [k \in Keys(gf) |-> RowAt(gf, k).c[j]]

(* ----------------------- well-formedness (C02) -------------------------- *)
RowsInGraph(gf) == RowNodes(gf) \subseteq Reach(gf)
\* rows in index order (node order, then the other levels)
RowsSorted(gf) ==
  \A i \in 1..(Len(gf.rows) - 1) :
     LET a == gf.rows[i]   b == gf.rows[i + 1]
         na == gf.nodes[a.u].nid   nb == gf.nodes[b.u].nid
     IN na < nb \/ (na = nb /\ (a.ix = b.ix \/ ValSeqLt(a.ix, b.ix)))
CellsOK(gf) == \A i \in DOMAIN gf.rows : Len(gf.rows[i].c) = Len(gf.cols)
                                         /\ Len(gf.rows[i].ix) = Len(gf.ixn)
WF(gf) == /\ Closed(gf) /\ CellsOK(gf) /\ NoDup(gf.cols)
          /\ Reach(gf) = Nodes(gf)
          /\ NidsDistinct(gf) /\ Mirrored(gf) /\ RowsInGraph(gf)
Attached(gf) == Closed(gf) /\ Reach(gf) = Nodes(gf)

(* ---------------------- comparing two graphframes ----------------------- *)
(* rows as a function of (node name, other index), columns by name            *)
NamedRows(gf, N) ==
  [k \in {<<N[gf.rows[i].u], gf.rows[i].ix>> : i \in DOMAIN gf.rows} |->
     LET r == gf.rows[CHOOSE i \in DOMAIN gf.rows : <<N[gf.rows[i].u], gf.rows[i].ix>> = k]
     IN [n \in Range(gf.cols) |-> CellOf(gf, r, n)]]
SameMeta(a, b) == /\ Range(a.exc) = Range(b.exc) /\ Range(a.inc) = Range(b.inc)
                  /\ a.dm = b.dm /\ a.md = b.md /\ a.ixn = b.ixn
\* equal up to the identity of nodes, given by naming functions
SameStructure(a, NA, b, NB) ==
  /\ {NA[u] : u \in Nodes(a)} = {NB[u] : u \in Nodes(b)}
  /\ Cardinality(Nodes(a)) = Cardinality(Nodes(b))
  /\ {NA[u] : u \in RootSet(a)} = {NB[u] : u \in RootSet(b)}
  /\ Len(a.roots) = Len(b.roots)
  /\ {<<NA[e[1]], NA[e[2]]>> : e \in Edges(a)} = {<<NB[e[1]], NB[e[2]]>> : e \in Edges(b)}
SameRows(a, NA, b, NB) == /\ Len(a.rows) = Len(b.rows)
                          /\ Range(a.cols) = Range(b.cols)
                          /\ NamedRows(a, NA) = NamedRows(b, NB)

(* ------------------------------- predicates ------------------------------ *)
(* row predicate AST, evaluated by the driver as a Python callable:           *)
(*  [k |-> "cmp", col, op, v] | [k |-> "isnull", col] | [k |-> "const", b]    *)
(*  | [k |-> "and"/"or", l, r] | [k |-> "not", l]                             *)
(*  | [k |-> "nid", op, n] | [k |-> "dep", op, n] | [k |-> "ix", name, op, v] *)
IntCmp(op, a, b) == CASE op = "<" -> a < b [] op = ">" -> a > b [] op = "<=" -> a <= b
                      [] op = ">=" -> a >= b [] op = "==" -> a = b [] op = "!=" -> a # b
ValCmp(op, a, b) ==
  IF IsReal(a) /\ IsReal(b) THEN RealCmp(op, a, b)
  ELSE CASE op = "==" -> a = b [] op = "!=" -> a # b
         [] op = "<" -> ValLt(a, b) [] op = ">" -> ValLt(b, a)
         [] op = "<=" -> ValLe(a, b) [] op = ">=" -> ValLe(b, a)
RECURSIVE RowPred(_, _, _)
RowPred(gf, p, r) ==
  CASE p.k = "const" -> p.b
    [] p.k = "cmp"   -> ValCmp(p.op, CellOf(gf, r, p.col), p.v)
    [] p.k = "isnull" -> Missing(CellOf(gf, r, p.col))
    [] p.k = "nid"   -> IntCmp(p.op, gf.nodes[r.u].nid, p.n)
    [] p.k = "dep"   -> IntCmp(p.op, gf.nodes[r.u].dep, p.n)
    [] p.k = "ix"    -> ValCmp(p.op, r.ix[CHOOSE i \in DOMAIN gf.ixn : gf.ixn[i] = p.name], p.v)
    [] p.k = "in"    -> CellOf(gf, r, p.col) \in Range(p.vs)
    [] p.k = "not"   -> ~RowPred(gf, p.l, r)
    [] p.k = "and"   -> RowPred(gf, p.l, r) /\ RowPred(gf, p.r, r)
    [] p.k = "or"    -> RowPred(gf, p.l, r) \/ RowPred(gf, p.r, r)
    [] p.k = "rows"  -> Key(r) \in {<<p.keys[i].u, p.keys[i].ix>> : i \in DOMAIN p.keys}

(* -------------------------------- filter --------------------------------- *)
\* filter with squash=False: the same graph, only the rows that qualify
FilterRows(gf, p) == [gf EXCEPT !.rows = SelectSeq(gf.rows, LAMBDA r: RowPred(gf, p, r))]

(* -------------------------------- squash --------------------------------- *)
Kept(gf) == RowNodes(gf)
(* nearest kept nodes below u: through removed nodes only                      *)
RECURSIVE NearR(_, _, _, _)
NearR(g, kept, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET open == frontier \ kept
           n == UNION {Kids(g, v) : v \in open} \ seen
       IN NearR(g, kept, seen \cup n, n)
NearestKept(g, kept, start) == NearR(g, kept, start, start) \cap kept
SqKids(g, kept) == [u \in kept |-> NearestKept(g, kept, Kids(g, u))]
SqRoots(g, kept) == NearestKept(g, kept, RootSet(g))
SqClasses(g, kept) ==
  MergeClasses(kept, [u \in kept |-> Fr(g, u)], SqKids(g, kept), SqRoots(g, kept))

(* the squashed graph: its nodes are the classes of merged kept nodes         *)
SquashGraph(g) ==
  LET kept == RowNodes(g)
      kids == SqKids(g, kept)
      cls == SqClasses(g, kept)
      blocks == {cls[u] : u \in kept}
  IN [blocks |-> blocks, cls |-> cls,
      roots |-> {cls[u] : u \in SqRoots(g, kept)},
      kids |-> [b \in blocks |-> UNION {{cls[c] : c \in kids[u]} : u \in b}],
      f |-> [b \in blocks |-> Fr(g, CHOOSE u \in b : TRUE)]]
RECURSIVE BlockReach(_, _, _)
BlockReach(sg, S, fr) == IF fr = {} THEN S
                         ELSE LET n == UNION {sg.kids[b] : b \in fr} \ S
                              IN BlockReach(sg, S \cup n, n)
SquashAcyclic(sg) == \A b \in sg.blocks : b \notin BlockReach(sg, sg.kids[b], sg.kids[b])

\* call-path names of the squashed nodes
RECURSIVE BlockPathsR(_, _, _)
BlockPathsR(sg, acc, frontier) ==
  IF frontier = {} THEN acc
  ELSE LET n == UNION { {Append(p, c) : c \in sg.kids[p[Len(p)]]} : p \in frontier }
       IN BlockPathsR(sg, acc \cup n, n)
BlockNames(sg) ==
  LET S == {<<r>> : r \in sg.roots}   P == BlockPathsR(sg, S, S)
  IN [b \in sg.blocks |-> {[i \in DOMAIN p |-> sg.f[p[i]]] : p \in {q \in P : q[Len(q)] = b}}]

\* aggregation of the rows of each class (per other-index values)
AggCells(gf, rs) ==
  [i \in DOMAIN gf.cols |->
     IF gf.cols[i] \in Metrics(gf) THEN SumMin1([j \in DOMAIN rs |-> rs[j].c[i]])
     ELSE rs[1].c[i]]
SquashRows(gf, sg) ==
  [k \in {<<sg.cls[gf.rows[i].u], gf.rows[i].ix>> : i \in DOMAIN gf.rows} |->
     AggCells(gf, SelectSeq(gf.rows, LAMBDA r: <<sg.cls[r.u], r.ix>> = k))]

(* --------------------------- inclusive metrics --------------------------- *)
IncName(exc) == exc.incname     \* spelled by the driver from the documented rule
\* value of `cols -> outs' per row: sum over distinct descendants, same other index
SubSum(gf, col, fn, k) ==
  LET D == Descend(gf, k[1])
      rs == SelectSeq(gf.rows, LAMBDA r: r.u \in D /\ r.ix = k[2])
  IN AggBy(fn, [i \in DOMAIN rs |-> CellOf(gf, rs[i], col)])

(* --------------------------- exclusive metrics --------------------------- *)
ExcOf(gf, inc, k) ==
  LET kv == [c \in Kids(gf, k[1]) |-> CellOf(gf, RowAt(gf, <<c, k[2]>>), inc)]
      sum == FoldSet(LAMBDA c, a: Add(a, IF Missing(kv[c]) THEN Zero ELSE kv[c]), Zero, Kids(gf, k[1]))
  IN Sub(CellOf(gf, RowAt(gf, k), inc), sum)
=============================================================================
