--------------------------------- MODULE Ops ---------------------------------
(* What each public operation of a graphframe must do, as sets of violated     *)
(* clauses: {} means the observed step is one the specification allows.        *)
(* s, s1, s2 are graphframes before the step, t, t1, t2 after it, x is the     *)
(* event (x.a its arguments, x.exc the exception raised or ""), ctx the        *)
(* scenario's context.                                                         *)
EXTENDS Frames

Chk(name, cond) == IF cond THEN {} ELSE {name}
\* cond2 is evaluated only if the guard holds
Guard(name, g, rest) == IF g THEN rest ELSE {name}

(* ------------------------- well-formedness (C02) -------------------------- *)
WFErr(t) ==
  IF t.err # "" THEN {"wf.index"}
  ELSE IF ~Closed(t) THEN {"wf.links"}
  ELSE UNION {Chk("wf.mirror", Mirrored(t)), Chk("wf.ids", NidsDistinct(t)),
              Chk("wf.rows", RowsInGraph(t)), Chk("wf.depth", DepthOK(t)),
              Chk("wf.cells", CellsOK(t) /\ NoDup(t.cols)),
              Chk("wf.keys", KeysUnique(t)),
              Chk("wf.roots", NoDup(t.roots))}
Sound(t) == t.err = "" /\ Closed(t) /\ CellsOK(t) /\ NoDup(t.cols) /\ RowsInGraph(t)
            /\ Mirrored(t) /\ KeysUnique(t)
SameLists(s, t) == Range(s.exc) = Range(t.exc) /\ Range(s.inc) = Range(t.inc)
SameInfo(s, t) == SameLists(s, t) /\ s.dm = t.dm /\ s.md = t.md
SameGraph(s, t) == s.gid = t.gid /\ s.nodes = t.nodes /\ s.roots = t.roots /\ s.no = t.no
SameFrame(s, t) == s.rows = t.rows /\ s.cols = t.cols /\ s.ixn = t.ixn

(* --------------------- equality up to node identity ----------------------- *)
RECURSIVE PosR(_, _, _)
PosR(g, todo, acc) ==
  IF todo = <<>> THEN acc
  ELSE IF Head(todo) \in Range(acc) THEN PosR(g, Tail(todo), acc)
  ELSE PosR(g, g.nodes[Head(todo)].ch \o Tail(todo), Append(acc, Head(todo)))
PosOrder(g) == PosR(g, g.roots, <<>>)
NidOrder(g) == SetToSortSeq(Nodes(g), LAMBDA a, b: g.nodes[a].nid < g.nodes[b].nid)
ZipMap(s, t) == [u \in Range(s) |-> t[CHOOSE i \in DOMAIN s : s[i] = u]]
(* candidate node correspondences between a and b: by call path where siblings *)
(* have distinct frames, else by position or by number                         *)
Corrs(a, b) ==
  IF Cardinality(Nodes(a)) # Cardinality(Nodes(b)) THEN {}
  ELSE IF Acyclic(a) /\ Acyclic(b) /\ DistinctSiblings(a) /\ DistinctSiblings(b)
  THEN LET A == PathNames(a)   B == PathNames(b) IN
       IF {A[u] : u \in Nodes(a)} # {B[u] : u \in Nodes(b)} THEN {}
       ELSE {[u \in Nodes(a) |-> CHOOSE v \in Nodes(b) : B[v] = A[u]]}
  ELSE {ZipMap(PosOrder(a), PosOrder(b)), ZipMap(NidOrder(a), NidOrder(b))}
MapRows(rows, m) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.u = m[@]]]
VEq(v, w) == v = w \/ (Missing(v) /\ Missing(w))   \* formats need not tell None from NaN
RowFn(t) == [k \in Keys(t) |-> RowAt(t, k)]
IsoMaps(a, b) == {m \in Corrs(a, b) : IsIso(a, b, m)}
\* the same rows, columns compared by name
RowsAgree(a, b, m, cols) ==
  /\ Len(a.rows) = Len(b.rows)
  /\ {<<m[k[1]], k[2]>> : k \in Keys(a)} = Keys(b)
  /\ \A i \in DOMAIN a.rows :
        LET r == a.rows[i]   q == RowAt(b, <<m[r.u], r.ix>>)
        IN \A c \in cols : VEq(CellOf(a, r, c), CellOf(b, q, c))

(* ------------------------------ traversal (C01) ---------------------------- *)
TraverseErr(s, x) ==
  LET out == x.out.seq
      start == IF x.a.start = "" THEN RootSet(s) ELSE {x.a.start}
      reach == Closure(s, start, start)
      \* equal-frame siblings come in any order: the one entered first.  That is the order
      \* of the output, except in postorder when one is a descendant of the other
      at(u) == IF u \in Range(out) THEN CHOOSE i \in DOMAIN out : out[i] = u ELSE 0
      twins(u) == {v \in UNION ({Kids(s, q) : q \in {w \in reach : u \in Kids(s, w)}}
                                 \cup {IF u \in start THEN start ELSE {}}) : v # u /\ Fr(s, v) = Fr(s, u)}
      above(u) == {v \in twins(u) : u \in Descend(s, v)}
      amb == IF x.a.byNid \/ x.a.order = "pre" THEN {} ELSE {u \in reach : above(u) # {}}
      n == Len(out) + 1
      tieOf(late) == [u \in Nodes(s) |-> IF u \in late THEN 2 * n * Max({at(v) : v \in above(u)}) + n - at(u)
                                        ELSE 2 * n * at(u)]
      roots == IF x.a.start = "" THEN s.roots ELSE <<x.a.start>>
  IN IF x.exc # "" THEN {"traverse.raised"} ELSE
     Guard("traverse.reach", Range(out) = reach /\ NoDup(out),
       UNION {
        Chk("traverse.order",
            \E late \in SUBSET amb :
              out = IF x.a.order = "pre" THEN PreOrder(s, start, x.a.byNid, tieOf(late))
                    ELSE PostOrder(s, start, x.a.byNid, tieOf(late))),
        Chk("traverse.visited", \A u \in reach : x.out.visited[u] = Arrivals(s, roots, out, u)),
        Chk("traverse.visitedkeys", DOMAIN x.out.visited = reach),
        Chk("traverse.attrs", x.out.vals = [i \in DOMAIN out |->
               [j \in DOMAIN x.a.attrs |-> FrameAttr(Fr(s, out[i]), x.a.attrs[j])]]),
        IF x.a.start = ""
        THEN Chk("traverse.len", x.out.len = Cardinality(reach))
             \cup Chk("traverse.istree", x.out.tree = IsTree(s))
        ELSE {} })

(* ------------------------------- paths --------------------------------------*)
\* Node.paths(): all node paths from a root to the node
PathsErr(s, x) ==
  LET P == {q \in NodePaths(s) : q[Len(q)] = x.a.node}
  IN UNION {Chk("paths.set", Range(x.out.paths) = P),
            Chk("paths.each", Len(x.out.paths) = Cardinality(P)),
            Chk("paths.single", x.out.single = (Cardinality(P) = 1))}

(* ------------------------------ equality (C03) ----------------------------- *)
EqErr(s1, s2, x) ==
  IF x.exc # "" THEN {"eq.raised"} ELSE
  LET e == GraphEq(s1, s2)
  IN UNION {Chk("eq.value", x.out.eq = e), Chk("eq.ne", x.out.ne = ~e),
            Chk("eq.symmetric", x.out.qe = e)}

(* dag_equal of two nodes: equality of their subgraphs, whatever the frames of   *)
(* the two nodes themselves (Graph equality compares the roots' frames)          *)
SubGraphOf(g, u) ==
  LET D == Descend(g, u)
  IN [nodes |-> [v \in D |-> IF v = u THEN [g.nodes[v] EXCEPT !.f = <<>>] ELSE g.nodes[v]],
      roots |-> <<u>>]
NodeEqErr(s1, s2, x) ==
  IF x.exc # "" THEN {"nodeeq.raised"} ELSE
  Chk("nodeeq.value", x.out.eq = GraphEq(SubGraphOf(s1, x.a.u), SubGraphOf(s2, x.a.v)))

CopyErr(s, t, x) ==
  UNION {Chk("copy.raised", x.exc = ""), Chk("copy.graph", SameGraph(s, t)),
         Chk("copy.data", SameFrame(s, t)), Chk("copy.info", SameInfo(s, t))}

Disjoint(s, t) == s.gid # t.gid /\ Nodes(s) \cap Nodes(t) = {}
DeepcopyErr(s, t, x) ==
  IF x.exc # "" THEN {"deepcopy.raised"} ELSE
  WFErr(t) \cup
  Guard("deepcopy.sound", Sound(t),
   UNION {Chk("deepcopy.disjoint", Disjoint(s, t)),
    Chk("deepcopy.numbered", Numbered(t, t.no)),
    Chk("deepcopy.info", SameInfo(s, t) /\ s.no = t.no),
    Chk("deepcopy.columns", s.cols = t.cols /\ s.ixn = t.ixn),
    Guard("deepcopy.structure", IsoMaps(s, t) # {},
      Chk("deepcopy.data", \E m \in IsoMaps(s, t) : MapRows(s.rows, m) = t.rows))
    \cup (IF s.no THEN Chk("deepcopy.order",
            LET m == ZipMap(NidOrder(s), NidOrder(t)) IN IsIso(s, t, m)) ELSE {})})
\* Graph.copy with its old -> new map
GraphCopyErr(s, t, x) ==
  IF x.exc # "" THEN {"gcopy.raised"} ELSE
  LET m == [u \in {x.a.map[i].o : i \in DOMAIN x.a.map} |->
              (x.a.map[CHOOSE i \in DOMAIN x.a.map : x.a.map[i].o = u]).n]
  IN WFErr(t) \cup
     UNION {Chk("gcopy.disjoint", Disjoint(s, t)), Chk("gcopy.numbered", Numbered(t, t.no)),
            Chk("gcopy.map", IF "nomap" \in DOMAIN x.a THEN IsoMaps(s, t) # {} ELSE IsIso(s, t, m)), Chk("gcopy.no", s.no = t.no)}

(* ------------------------------- union (C04) -------------------------------- *)
Both(s1, s2) == [nodes |-> [u \in Nodes(s1) \cup Nodes(s2) |->
                              IF u \in Nodes(s1) THEN s1.nodes[u] ELSE s2.nodes[u]],
                 roots |-> s1.roots \o s2.roots]
\* quotient by the least merging in which siblings have distinct frames
QuotientOf(g) ==
  LET kids == [u \in Nodes(g) |-> Kids(g, u)]
      cls == MergeClasses(Nodes(g), [u \in Nodes(g) |-> Fr(g, u)], kids, RootSet(g))
      blocks == {cls[u] : u \in Nodes(g)}
  IN [blocks |-> blocks, cls |-> cls, roots |-> {cls[r] : r \in RootSet(g)},
      kids |-> [b \in blocks |-> UNION {{cls[c] : c \in kids[u]} : u \in b}],
      f |-> [b \in blocks |-> Fr(g, CHOOSE u \in b : TRUE)]]
UnionQ(s1, s2) == QuotientOf(Both(s1, s2))
\* the real graph t realises the quotient q
QuotErr(q, t, pfx) ==
  LET BN == BlockNames(q)   TN == PathNames(t)
  IN UNION {Chk(pfx \o ".nodes", {BN[b] : b \in q.blocks} = {TN[u] : u \in Nodes(t)}
                                  /\ Cardinality(q.blocks) = Cardinality(Nodes(t))),
            Chk(pfx \o ".siblings", DistinctSiblings(t)),
            Chk(pfx \o ".nodup", NoDup(t.roots) /\ \A u \in Nodes(t) :
                                   NoDup(t.nodes[u].ch) /\ NoDup(t.nodes[u].pa))}
\* map from blocks to the nodes of t
BlockMap(q, t) ==
  LET BN == BlockNames(q)   TN == PathNames(t)
  IN [b \in q.blocks |-> CHOOSE u \in Nodes(t) : TN[u] = BN[b]]
UnionErr(s1, s2, t, x) ==
  IF x.exc # "" THEN {"union.raised"} ELSE
  Guard("union.sound", Closed(t) /\ Acyclic(t),
   LET q == UnionQ(s1, s2)
       qe == QuotErr(q, t, "union")
       m == [u \in {x.a.map[i].o : i \in DOMAIN x.a.map} |->
              (x.a.map[CHOOSE i \in DOMAIN x.a.map : x.a.map[i].o = u]).n]
   IN WFErr(t) \cup qe \cup
      UNION {Chk("union.fresh", (Nodes(s1) \cup Nodes(s2)) \cap Nodes(t) = {}
                                /\ t.gid # s1.gid /\ t.gid # s2.gid),
             Chk("union.numbered", Numbered(t, FALSE)),
             IF qe # {} \/ "nomap" \in DOMAIN x.a THEN {} ELSE
             LET bm == BlockMap(q, t)
             IN Chk("union.map", DOMAIN m = Nodes(s1) \cup Nodes(s2)
                     /\ \A u \in DOMAIN m : m[u] = bm[q.cls[u]])})
\* operands with equal-frame siblings: only the call paths and the map are fixed
UnionDupErr(s1, s2, t, x) ==
  IF x.exc # "" THEN {"union.raised"} ELSE
  Guard("union.sound", Closed(t) /\ Acyclic(t),
   LET m == [u \in {x.a.map[i].o : i \in DOMAIN x.a.map} |->
              (x.a.map[CHOOSE i \in DOMAIN x.a.map : x.a.map[i].o = u]).n]
       P1 == PathNames(s1)  P2 == PathNames(s2)  T == PathNames(t)
   IN WFErr(t) \cup
      UNION {Chk("union.fresh", (Nodes(s1) \cup Nodes(s2)) \cap Nodes(t) = {}),
             Chk("union.numbered", Numbered(t, FALSE)),
             Chk("union.paths", CallPaths(t) = CallPaths(s1) \cup CallPaths(s2)),
             Chk("union.map", DOMAIN m = Nodes(s1) \cup Nodes(s2)
                     /\ \A u \in DOMAIN m :
                          m[u] \in Nodes(t) /\ (IF u \in Nodes(s1) THEN P1[u] ELSE P2[u]) \subseteq T[m[u]])})

(* the rows of a unified left graphframe, before any arithmetic                 *)
LeftOnly(s1, s2, q) == {u \in RowNodes(s1) : q.cls[u] \notin {q.cls[v] : v \in RowNodes(s2)}}
RightOnly(s1, s2, q) == {v \in RowNodes(s2) : q.cls[v] \notin {q.cls[u] : u \in RowNodes(s1)}}
AllMetrics(s1, s2) == Metrics(s1) \cup Metrics(s2)
MissCol == "_missing_node"

(* t holds s1's rows under the merged nodes, plus one per row of a node only s2  *)
(* has; val(r1, c) is the required value of metric c in the row r1 of s1         *)
MergedRowsErr(s1, s2, q, t, bm, val(_, _), pfx) ==
  LET ro == RightOnly(s1, s2, q)
      lo == LeftOnly(s1, s2, q)
      right == SelectSeq(s2.rows, LAMBDA r: r.u \in ro)
      k1(r) == <<bm[q.cls[r.u]], r.ix>>
      expKeys == {k1(s1.rows[i]) : i \in DOMAIN s1.rows} \cup {k1(right[i]) : i \in DOMAIN right}
      M == AllMetrics(s1, s2)
      marked == lo # {} \/ ro # {}
  IN Guard(pfx \o ".rows", Keys(t) = expKeys /\ Len(t.rows) = Len(s1.rows) + Len(right),
      Guard(pfx \o ".columns", Range(s1.cols) \subseteq Range(t.cols)
                               /\ (marked => HasCol(t, MissCol)),
       UNION {
        Chk(pfx \o ".values", \A i \in DOMAIN s1.rows :
             LET r == s1.rows[i]   p == RowAt(t, k1(r))
             IN \A c \in Range(s1.cols) \cap M : CellOf(t, p, c) = val(r, c)),
        Chk(pfx \o ".other", \A i \in DOMAIN s1.rows :
             LET r == s1.rows[i]   p == RowAt(t, k1(r))
             IN \A c \in Range(s1.cols) \ (M \cup {MissCol}) : CellOf(t, p, c) = CellOf(s1, r, c)),
        Chk(pfx \o ".added", \A i \in DOMAIN right :
             LET r == right[i]   p == RowAt(t, k1(r))
             IN /\ \A c \in M \cap Range(t.cols) : IsNaN(CellOf(t, p, c))
                /\ \A c \in Range(s2.cols) \ (M \cup {MissCol}) :
                      HasCol(t, c) /\ CellOf(t, p, c) = CellOf(s2, r, c)),
        IF ~marked THEN {} ELSE
        Chk(pfx \o ".marks",
             /\ \A i \in DOMAIN s1.rows : CellOf(t, RowAt(t, k1(s1.rows[i])), MissCol)
                    = IntV(IF s1.rows[i].u \in lo THEN 1 ELSE 0)
             /\ \A i \in DOMAIN right : CellOf(t, RowAt(t, k1(right[i])), MissCol) = IntV(2))}))

UnifyErr(s1, s2, t1, t2, x) ==
  IF x.exc # "" THEN {"unify.raised"} ELSE
  IF s1.gid = s2.gid THEN Chk("unify.same", s1 = t1 /\ s2 = t2)
  ELSE WFErr(t1) \cup WFErr(t2) \cup
   Guard("unify.sound", Sound(t1) /\ Sound(t2) /\ Acyclic(t1),
    LET q == UnionQ(s1, s2)   qe == QuotErr(q, t1, "unify") IN
    UNION {Chk("unify.shared", SameGraph(t1, t2) /\ t1.gid \notin {s1.gid, s2.gid}),
           Chk("unify.info", SameInfo(s1, t1) /\ SameInfo(s2, t2)),
           Chk("unify.numbered", Numbered(t1, FALSE)),
           qe,
           IF qe # {} THEN {} ELSE
           LET bm == BlockMap(q, t1)
               m == [u \in Nodes(s2) |-> bm[q.cls[u]]]
           IN MergedRowsErr(s1, s2, q, t1, bm, LAMBDA r, c: CellOf(s1, r, c), "unify")
              \cup Chk("unify.right", MapRows(s2.rows, m) = t2.rows /\ s2.cols = t2.cols
                                      /\ s2.ixn = t2.ixn)})

(* ----------------------------- arithmetic (C05) ------------------------------ *)
\* an undefined (NaN) result leaves the left value
OpVal(op, v, w) == LET r == BinOp(op, v, w) IN IF IsNaN(r) THEN v ELSE r
SharedOp(s1, s2, r, c, op, key) ==
  IF c \in Range(s2.cols) /\ key \in Keys(s2)
  THEN OpVal(op, CellOf(s1, r, c), CellOf(s2, RowAt(s2, key), c))
  ELSE CellOf(s1, r, c)
ArithErr(s1, s2, t, x) ==
  IF x.exc # "" THEN {"arith.raised"} ELSE
  WFErr(t) \cup
  Guard("arith.sound", Sound(t) /\ Acyclic(t),
   UNION {Chk("arith.info", SameInfo(s1, t)),
    IF s1.gid = s2.gid
    THEN UNION {
      Chk("arith.graph", SameGraph(s1, t)),
      Guard("arith.rows", [i \in DOMAIN s1.rows |-> Key(s1.rows[i])] = [i \in DOMAIN t.rows |-> Key(t.rows[i])]
                          /\ t.cols = s1.cols,
        Chk("arith.values", \A i \in DOMAIN s1.rows :
              LET r == s1.rows[i] IN
              \A c \in Range(s1.cols) :
                CellOf(t, t.rows[i], c) =
                  IF c \in AllMetrics(s1, s2) THEN SharedOp(s1, s2, r, c, x.a.op, Key(r))
                  ELSE CellOf(s1, r, c)))}
    ELSE LET q == UnionQ(s1, s2)   qe == QuotErr(q, t, "arith") IN
      UNION {qe, Chk("arith.numbered", Numbered(t, FALSE)),
             Chk("arith.fresh", t.gid \notin {s1.gid, s2.gid}),
             IF qe # {} \/ "nomap" \in DOMAIN x.a THEN {} ELSE
             LET bm == BlockMap(q, t)
                 k2 == [k \in {<<q.cls[s2.rows[i].u], s2.rows[i].ix>> : i \in DOMAIN s2.rows} |->
                          s2.rows[CHOOSE i \in DOMAIN s2.rows : <<q.cls[s2.rows[i].u], s2.rows[i].ix>> = k]]
                 val(r, c) == LET k == <<q.cls[r.u], r.ix>> IN
                              IF k \in DOMAIN k2 /\ HasCol(s2, c)
                              THEN OpVal(x.a.op, CellOf(s1, r, c), CellOf(s2, k2[k], c))
                              ELSE CellOf(s1, r, c)
             IN MergedRowsErr(s1, s2, q, t, bm, val, "arith")}})

(* ------------------------------- squash (C08, C09) --------------------------- *)
IncNames(ctx, s) == {ctx.inc[e] : e \in Range(s.exc)}
\* values of the squashed rows, after the inclusive columns are recomputed
SquashExp(ctx, s, sg, upd) ==
  LET base == SquashRows(s, sg)
      D == [b \in sg.blocks |-> BlockReach(sg, {b}, {b})]
      ei == [e \in Range(s.exc) |-> ColIdx(s, e)]
      cols == Range(s.cols) \cup (IF upd THEN IncNames(ctx, s) ELSE {})
      incsum(e, k) == LET ks == SetToSeq({d \in DOMAIN base : d[1] \in D[k[1]] /\ d[2] = k[2]})
                      IN SumMin1([i \in DOMAIN ks |-> base[ks[i]][ei[e]]])
  IN [k \in DOMAIN base |-> [c \in cols |->
        IF upd /\ c \in IncNames(ctx, s)
        THEN incsum(CHOOSE e \in Range(s.exc) : ctx.inc[e] = c, k)
        ELSE base[k][ColIdx(s, c)]]]
\* s: the filtered graphframe; t: the result
SquashErr(ctx, s, t, upd) ==
  WFErr(t) \cup
  Guard("squash.sound", Sound(t) /\ Acyclic(t),
   LET sg == SquashGraph(s)   qe == QuotErr(sg, t, "squash") IN
   UNION {qe,
    Chk("squash.fresh", Disjoint(s, t) /\ s.no = t.no),
    Chk("squash.info", Range(t.exc) = Range(s.exc) /\ t.dm = s.dm /\ t.md = s.md /\ t.ixn = s.ixn),
    Chk("squash.inc", Range(t.inc) = Range(s.inc) \cup (IF upd THEN IncNames(ctx, s) ELSE {})),
    Chk("squash.columns", Range(t.cols) = Range(s.cols) \cup (IF upd THEN IncNames(ctx, s) ELSE {})),
    Chk("squash.rowsinorder", RowsSorted(t)),
    IF qe # {} \/ ~(Range(s.cols) \subseteq Range(t.cols)) THEN {} ELSE
    LET bm == BlockMap(sg, t)
        E == SquashExp(ctx, s, sg, upd)
    IN Guard("squash.rows", Keys(t) = {<<bm[k[1]], k[2]>> : k \in DOMAIN E},
        Chk("squash.metrics", \A k \in DOMAIN E : LET r == RowAt(t, <<bm[k[1]], k[2]>>) IN
             \A c \in DOMAIN E[k] : c \in Metrics(t) /\ HasCol(t, c) => CellOf(t, r, c) = E[k][c])
        \cup Chk("squash.other", \A k \in DOMAIN E : LET r == RowAt(t, <<bm[k[1]], k[2]>>) IN
             \A c \in DOMAIN E[k] : c \notin Metrics(t) /\ HasCol(t, c) => CellOf(t, r, c) = E[k][c]))})

(* Graph.normalize merges equal siblings in place and says what became of each node *)
NormalizeErr(s, t, x) ==
  IF x.exc # "" THEN {"normalize.raised"} ELSE
  Guard("normalize.sound", Closed(t) /\ Acyclic(t),
   LET q == QuotientOf(s)   qe == QuotErr(q, t, "normalize")
       m == [u \in {x.a.map[i].o : i \in DOMAIN x.a.map} |->
              (x.a.map[CHOOSE i \in DOMAIN x.a.map : x.a.map[i].o = u]).n]
   IN WFErr(t) \cup qe \cup
      UNION {Chk("normalize.own", Nodes(t) \subseteq Nodes(s) /\ t.gid = s.gid),
             Chk("normalize.numbered", Numbered(t, t.no) /\ t.no = s.no),
             IF qe # {} THEN {} ELSE
             LET bm == BlockMap(q, t) IN
             Chk("normalize.map", \A u \in Nodes(s) : (IF u \in DOMAIN m THEN m[u] ELSE u) = bm[q.cls[u]])
             \cup Chk("normalize.frames", \A u \in Nodes(t) : Fr(t, u) = Fr(s, u))})

(* ------------------------------- filter (C06) -------------------------------- *)
\* f: the source with exactly the rows to keep
FilteredErr(ctx, s, f, t, x) ==
  IF f.rows = <<>> THEN Chk("filter.empty", x.exc = "EmptyFilter")
  ELSE IF x.exc # "" THEN {"filter.raised"}
  ELSE IF x.a.squash THEN SquashErr(ctx, f, t, x.a.upd)
  ELSE UNION {Chk("filter.rows", [i \in DOMAIN t.rows |-> Key(t.rows[i])] = [i \in DOMAIN f.rows |-> Key(f.rows[i])]),
              Chk("filter.values", t.rows = f.rows),
              Chk("filter.columns", t.cols = f.cols /\ t.ixn = f.ixn),
              Chk("filter.graph", SameGraph(s, t)), Chk("filter.info", SameInfo(s, t))}
FilterErr(ctx, s, t, x) == FilteredErr(ctx, s, FilterRows(s, x.a.pred), t, x)
FilterBadErr(s, x) == Chk("filter.invalid", x.exc = "InvalidFilter")
\* the predicate raises on some row: so does the call
FilterRaiseErr(s, x) == Chk("filter.predicate", x.exc = x.a.raises)

(* --------------------------- inclusive metrics (C10) -------------------------- *)
SumsErr(s, t, x, cols, outs, fn, pfx) ==
  IF Len(cols) # Len(outs) THEN Chk(pfx \o ".lengths", x.exc = "ValueError") \cup Chk(pfx \o ".refused", s = t)
  ELSE IF x.exc # "" THEN {pfx \o ".raised"}
  ELSE UNION {Chk(pfx \o ".graph", SameGraph(s, t)),
   Guard(pfx \o ".rows", [i \in DOMAIN s.rows |-> Key(s.rows[i])] = [i \in DOMAIN t.rows |-> Key(t.rows[i])]
                         /\ s.ixn = t.ixn /\ CellsOK(t) /\ NoDup(t.cols)
                         /\ Range(t.cols) = Range(s.cols) \cup Range(outs),
    Chk(pfx \o ".values", \A j \in DOMAIN outs : \A i \in DOMAIN s.rows :
           CellOf(t, t.rows[i], outs[j]) = SubSum(s, cols[j], fn, Key(s.rows[i])))
    \cup Chk(pfx \o ".other", \A c \in Range(s.cols) \ Range(outs) : \A i \in DOMAIN s.rows :
           CellOf(t, t.rows[i], c) = CellOf(s, s.rows[i], c)))}
SumErr(s, t, x) ==
  SumsErr(s, t, x, x.a.cols, IF x.a.hasouts THEN x.a.outs ELSE x.a.cols, x.a.fn, "sum")
  \cup Chk("sum.info", SameInfo(s, t))
UpdateIncErr(ctx, s, t, x) ==
  IF s.exc = <<>> THEN Chk("updinc.none", s = t /\ x.exc = "")
  ELSE SumsErr(s, t, x, s.exc, [i \in DOMAIN s.exc |-> ctx.inc[s.exc[i]]], "sum1", "updinc")
       \cup UNION {Chk("updinc.lists", Range(t.exc) = Range(s.exc)
                        /\ Range(t.inc) = Range(s.inc) \cup IncNames(ctx, s) /\ NoDup(t.inc)),
                   Chk("updinc.info", s.dm = t.dm /\ s.md = t.md)}

(* --------------------------- exclusive metrics (C11) -------------------------- *)
NumericCol(s, c) == \A i \in DOMAIN s.rows : LET v == CellOf(s, s.rows[i], c) IN IsReal(v) \/ IsBool(v)
(* x.a.names: for every inclusive metric, [suffix |-> ends with "(inc)",         *)
(*   base |-> the name without it, exc |-> the name with "(exc)" appended]        *)
GenPairs(s, x) ==
  {i \in DOMAIN s.inc :
     LET c == s.inc[i]   n == x.a.names[c] IN
     /\ x.a.req = <<>> \/ c \in Range(x.a.req)
     /\ NumericCol(s, c)
     /\ n.suffix => n.base \notin Range(s.exc)}
GenName(s, x, i) == LET n == x.a.names[s.inc[i]] IN IF n.suffix THEN n.base ELSE n.exc
GenExcErr(s, t, x) ==
  IF x.exc # "" THEN {"genexc.raised"} ELSE
  LET P == GenPairs(s, x)
      new == {GenName(s, x, i) : i \in P}
  IN UNION {Chk("genexc.graph", SameGraph(s, t)),
      Chk("genexc.lists", Range(t.exc) = Range(s.exc) \cup new /\ Range(t.inc) = Range(s.inc) /\ NoDup(t.exc)),
      Chk("genexc.info", s.dm = t.dm /\ s.md = t.md),
      Guard("genexc.rows", [i \in DOMAIN s.rows |-> Key(s.rows[i])] = [i \in DOMAIN t.rows |-> Key(t.rows[i])]
                           /\ s.ixn = t.ixn /\ CellsOK(t) /\ NoDup(t.cols)
                           /\ Range(t.cols) = Range(s.cols) \cup new,
        Chk("genexc.values", \A j \in P : \A i \in DOMAIN s.rows :
              CellOf(t, t.rows[i], GenName(s, x, j)) = ExcOf(s, s.inc[j], Key(s.rows[i])))
        \cup Chk("genexc.other", \A c \in Range(s.cols) \ new : \A i \in DOMAIN s.rows :
              CellOf(t, t.rows[i], c) = CellOf(s, s.rows[i], c)))}

(* ---------------------------- index levels (C12) ------------------------------- *)
DropErr(s, t, x) ==
  IF x.exc # "" THEN {"drop.raised"} ELSE
  UNION {Chk("drop.graph", SameGraph(s, t)), Chk("drop.info", SameInfo(s, t)),
   Guard("drop.index", t.ixn = <<>> /\ Range(t.cols) = Range(s.cols) /\ CellsOK(t),
    Guard("drop.rows", RowNodes(t) = RowNodes(s) /\ Len(t.rows) = Cardinality(RowNodes(s)),
     UNION {Chk("drop.order", RowsSorted(t)),
      Chk("drop.metrics", \A i \in DOMAIN t.rows : LET rs == RowsOf(s, t.rows[i].u) IN
         \A c \in Metrics(s) : CellOf(t, t.rows[i], c) =
             AggBy(x.a.fn, [j \in DOMAIN rs |-> CellOf(s, rs[j], c)])),
      Chk("drop.other", \A i \in DOMAIN t.rows : LET rs == RowsOf(s, t.rows[i].u) IN
         \A c \in Range(s.cols) \ Metrics(s) : CellOf(t, t.rows[i], c) = CellOf(s, rs[1], c))}))}

(* ------------------------------ groupby (C13) ---------------------------------- *)
\* single-indexed s, every node has one row; x.a.key: the column grouped by
GroupbyErr(s, t, x) ==
  IF x.exc # "" THEN {"groupby.raised"} ELSE
  LET key(u) == CellOf(s, RowAt(s, <<u, <<>>>>), x.a.key)
      G == {key(u) : u \in Nodes(s)}
      mem(k) == {u \in Nodes(s) : key(u) = k}
      tname(v) == FrameAttr(Fr(t, v), "name")
  IN IF t.err # "" \/ ~Closed(t) THEN {"groupby.index"} ELSE
   UNION {Chk("groupby.mirror", Mirrored(t)), Chk("groupby.ids", Numbered(t, FALSE)),
    Chk("groupby.depth", DepthOK(t)),
    Chk("groupby.info", SameInfo(s, t)),
    Guard("groupby.nodes", {tname(v) : v \in Nodes(t)} = G /\ Cardinality(Nodes(t)) = Cardinality(G),
     LET n == [k \in G |-> CHOOSE v \in Nodes(t) : tname(v) = k] IN
     UNION {
      Chk("groupby.type", \A v \in Nodes(t) : FrameAttr(Fr(t, v), "type")[4] = x.a.key),
      Chk("groupby.edges", Edges(t) = {<<n[e[1]], n[e[2]]>> : e \in
             {d \in G \X G : d[1] # d[2] /\ \E u \in mem(d[1]) : Kids(s, u) \cap mem(d[2]) # {}}}),
      Chk("groupby.nodup", NoDup(t.roots) /\ \A v \in Nodes(t) : NoDup(t.nodes[v].ch) /\ NoDup(t.nodes[v].pa)),
      Chk("groupby.roots", RootSet(t) = {n[k] : k \in {g \in G : \E u \in mem(g) : Pars(s, u) = {}}}),
      Guard("groupby.rows", t.ixn = <<>> /\ CellsOK(t) /\ Keys(t) = {<<n[k], <<>>>> : k \in G} /\ KeysUnique(t)
                            /\ \A i \in DOMAIN x.a.aggs : HasCol(t, x.a.aggs[i].col),
       Chk("groupby.values", \A k \in G :
         LET rs == SelectSeq(s.rows, LAMBDA r: CellOf(s, r, x.a.key) = k)
         IN \A i \in DOMAIN x.a.aggs :
              CellOf(t, RowAt(t, <<n[k], <<>>>>), x.a.aggs[i].col) =
              AggBy(x.a.aggs[i].fn, [j \in DOMAIN rs |-> CellOf(s, rs[j], x.a.aggs[i].col)]))
       \cup Chk("groupby.name", HasCol(t, "name") /\ \A k \in G : CellOf(t, RowAt(t, <<n[k], <<>>>>), "name") = k))})}

(* ------------------------ writing and reading back (C18) ------------------------ *)
RoundtripErr(s, t, x) ==
  IF x.exc # "" THEN {"roundtrip.raised"} ELSE
  WFErr(t) \cup
  Guard("roundtrip.sound", Sound(t),
   UNION {Chk("roundtrip.lists", SameLists(s, t)),
    Chk("roundtrip.default", x.a.fmt = "hdf" => s.dm = t.dm),
    Chk("roundtrip.fresh", Disjoint(s, t)),
    Chk("roundtrip.columns", Range(s.cols) = Range(t.cols) /\ s.ixn = t.ixn),
    Chk("roundtrip.lookup", x.a.lookup),
    Chk("roundtrip.numbered", x.a.fmt = "hdf" => Numbered(t, FALSE)),
    Guard("roundtrip.structure", IsoMaps(s, t) # {} /\ Len(s.roots) = Len(t.roots),
     Guard("roundtrip.rows", Range(s.cols) = Range(t.cols) /\ s.ixn = t.ixn
              /\ \E m \in IsoMaps(s, t) : RowsAgree(s, t, m, {}),
       Chk("roundtrip.order", \E m \in IsoMaps(s, t) :
              [i \in DOMAIN s.rows |-> <<m[s.rows[i].u], s.rows[i].ix>>] = [i \in DOMAIN t.rows |-> Key(t.rows[i])])
       \cup Chk("roundtrip.values", \E m \in IsoMaps(s, t) : RowsAgree(s, t, m, Range(s.cols)))
       \* HDF files are renumbered when read
       \cup Chk("roundtrip.ids", x.a.fmt = "hdf" \/ \E m \in IsoMaps(s, t) : \A u \in Nodes(s) : t.nodes[m[u]].nid = s.nodes[u].nid)
       \cup Chk("roundtrip.depths", x.a.tree => \E m \in IsoMaps(s, t) :
                   \A u \in Nodes(s) : t.nodes[m[u]].dep = s.nodes[u].dep)))})
\* HDF files: store says which graphframes, as they were when written, a file holds under
\* which keys.  Writing a key replaces it; mode "w" empties the file first
StoreOps == {"h5.write", "h5.read"}
StoreNext(store, x, h) ==
  IF x.op # "h5.write" \/ x.exc # "" THEN store ELSE
  LET k == <<x.a.file, x.a.key>>
      old == IF x.a.mode = "w" THEN {i \in DOMAIN store : i[1] # x.a.file} ELSE DOMAIN store
  IN [i \in old \cup {k} |-> IF i = k THEN h[x.in[1]] ELSE store[i]]
StoreErr(store, x, n) ==
  IF x.op = "h5.write" THEN Chk("store.write", x.exc = "") ELSE
  LET ks == {k \in DOMAIN store : k[1] = x.a.file /\ (x.a.anykey \/ k[2] = x.a.key)}
  IN IF ks = {} THEN Chk("store.missing", x.exc # "" /\ x.res = "")
     ELSE IF x.exc # "" \/ x.res = "" THEN {"store.read"}
     ELSE RoundtripErr(store[CHOOSE k \in ks : TRUE], n[x.res], x)
\* through to_literal: metrics only (plus name), of one rank/thread; NaN and inf become 0
Lit0(v) == IF IsNum(v) \/ IsBool(v) THEN AsNum(v) ELSE Zero
LiteralRTErr(s, t, x) ==
  IF x.exc # "" THEN {"literal.raised"} ELSE
  WFErr(t) \cup
  Guard("literal.sound", Sound(t),
   Guard("literal.structure", IsoMaps(s, t) # {},
    Guard("literal.columns", Metrics(s) \subseteq Range(t.cols) /\ HasCol(t, "name") /\ t.ixn = <<>>,
     UNION {
      Chk("literal.lists", Metrics(t) = Metrics(s)),
      Chk("literal.rows", Len(t.rows) = Cardinality(Nodes(t)) /\ RowNodes(t) = Nodes(t)),
      Chk("literal.values", \E m \in IsoMaps(s, t) : \A u \in Nodes(s) :
          LET r == RowAt(s, <<u, x.a.ix>>)
          IN Key([u |-> m[u], ix |-> <<>>]) \in Keys(t) /\
             LET q == RowAt(t, <<m[u], <<>>>>) IN
             /\ \A c \in Metrics(s) : CellOf(t, q, c) = Lit0(CellOf(s, r, c))
             /\ CellOf(t, q, "name") = CellOf(s, r, x.a.name)
             /\ t.nodes[m[u]].nid = s.nodes[u].nid),
      Chk("literal.depths", x.a.tree => \E m \in IsoMaps(s, t) :
                   \A u \in Nodes(s) : t.nodes[m[u]].dep = s.nodes[u].dep)})))
=============================================================================
