------------------------------ MODULE CallGraph ------------------------------
(* Call graphs.  A graph g is a record with                                  *)
(*   g.nodes : [node id (string) -> [f, nid, dep, ch, pa]]                   *)
(*             f  = frame, a sequence of <<attribute, value>> pairs sorted   *)
(*                  by attribute (attribute and value are Values)            *)
(*             nid, dep = the numbering and the depth;                       *)
(*             ch, pa = sequences of node ids                                *)
(*   g.roots : sequence of node ids                                          *)
EXTENDS Values

Nodes(g) == DOMAIN g.nodes
Fr(g, u) == g.nodes[u].f
Kids(g, u) == Range(g.nodes[u].ch)
Pars(g, u) == Range(g.nodes[u].pa)
RootSet(g) == Range(g.roots)
Edges(g) == UNION { {<<u, c>> : c \in Kids(g, u)} : u \in Nodes(g) }
NoDup(s) == Cardinality(Range(s)) = Len(s)

(* ------------------------------ frame order ----------------------------- *)
RECURSIVE FrameLtR(_, _, _)
FrameLtR(s, t, i) ==
  IF i > Len(s) THEN i <= Len(t)
  ELSE IF i > Len(t) THEN FALSE
  ELSE IF s[i] = t[i] THEN FrameLtR(s, t, i + 1)
  ELSE IF s[i][1] # t[i][1] THEN ValLt(s[i][1], t[i][1])
  ELSE ValLt(s[i][2], t[i][2])
FrameLt(s, t) == FrameLtR(s, t, 1)

FrameAttr(f, name) == LET S == {i \in DOMAIN f : f[i][1][4] = name}
                      IN IF S = {} THEN None ELSE f[CHOOSE i \in S : TRUE][2]

(* ------------------------------ reachability ---------------------------- *)
RECURSIVE Closure(_, _, _)
Closure(g, S, frontier) ==
  IF frontier = {} THEN S
  ELSE LET n == UNION {Kids(g, u) : u \in frontier} \ S
       IN Closure(g, S \cup n, n)
Descend(g, u) == Closure(g, {u}, {u})                \* u and its descendants
Reach(g) == Closure(g, RootSet(g), RootSet(g))
Acyclic(g) == \A u \in Nodes(g) : u \notin Closure(g, Kids(g, u), Kids(g, u))

(* every structural index used below is a node of the graph *)
Closed(g) == /\ RootSet(g) \subseteq Nodes(g)
             /\ \A u \in Nodes(g) : Kids(g, u) \subseteq Nodes(g)
                                    /\ Pars(g, u) \subseteq Nodes(g)

(* -------------------------------- paths --------------------------------- *)
RECURSIVE PathsR(_, _, _)
PathsR(g, acc, frontier) ==
  IF frontier = {} THEN acc
  ELSE LET n == UNION { {Append(p, c) : c \in Kids(g, p[Len(p)])} : p \in frontier }
       IN PathsR(g, acc \cup n, n)
\* all downward node paths starting at a root; only for acyclic graphs
NodePaths(g) == LET S == {<<r>> : r \in RootSet(g)} IN PathsR(g, S, S)
FramesOf(g, p) == [i \in DOMAIN p |-> Fr(g, p[i])]
\* the call paths (frame sequences) of every node
PathNames(g) ==
  LET P == NodePaths(g)
  IN [u \in Nodes(g) |-> {FramesOf(g, p) : p \in {q \in P : q[Len(q)] = u}}]
CallPaths(g) == {FramesOf(g, p) : p \in NodePaths(g)}

(* ------------------------------- traversal ------------------------------ *)
(* key order of the siblings: by frame (ties broken by `tie', an order that   *)
(* the caller supplies) or by node id                                         *)
SortBy(S, Lt(_, _)) == SetToSortSeq(S, Lt)
KidOrder(g, S, byNid, tie) ==
  IF byNid THEN SortBy(S, LAMBDA a, b: g.nodes[a].nid < g.nodes[b].nid)
  ELSE SortBy(S, LAMBDA a, b: IF Fr(g, a) = Fr(g, b) THEN tie[a] < tie[b]
                              ELSE FrameLt(Fr(g, a), Fr(g, b)))
RECURSIVE PreR(_, _, _, _, _)
PreR(g, todo, acc, byNid, tie) ==
  IF todo = <<>> THEN acc
  ELSE LET h == Head(todo) IN
       IF h \in Range(acc) THEN PreR(g, Tail(todo), acc, byNid, tie)
       ELSE PreR(g, KidOrder(g, Kids(g, h), byNid, tie) \o Tail(todo), Append(acc, h), byNid, tie)
PreOrder(g, start, byNid, tie) ==
  PreR(g, KidOrder(g, start, byNid, tie), <<>>, byNid, tie)

\* postorder: returns [seen |-> set entered, out |-> sequence left]
RECURSIVE PostR(_, _, _, _, _)
PostR(g, todo, st, byNid, tie) ==
  IF todo = <<>> THEN st
  ELSE LET h == Head(todo) IN
       IF h \in st.seen THEN PostR(g, Tail(todo), st, byNid, tie)
       ELSE LET sub == PostR(g, KidOrder(g, Kids(g, h), byNid, tie),
                             [st EXCEPT !.seen = @ \cup {h}], byNid, tie)
            IN PostR(g, Tail(todo), [sub EXCEPT !.out = Append(@, h)], byNid, tie)
PostOrder(g, start, byNid, tie) ==
  PostR(g, KidOrder(g, start, byNid, tie), [seen |-> {}, out |-> <<>>], byNid, tie).out

\* arrivals at u: one per child-list entry of a visited node, plus one per root entry
Occurs(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Arrivals(g, roots, visited, u) ==
  Occurs(roots, u) + FoldLeft(LAMBDA a, v: a + Occurs(g.nodes[v].ch, u), 0, visited)

NidTie(g) == [u \in Nodes(g) |-> g.nodes[u].nid]
IsTree(g) == /\ Len(g.roots) <= 1
             /\ LET o == SetToSeq(Reach(g))
                IN \A u \in Reach(g) : Arrivals(g, g.roots, o, u) = 1

(* -------------------------- numbering and depth ------------------------- *)
NidsDistinct(g) == \A u, v \in Nodes(g) : g.nodes[u].nid = g.nodes[v].nid => u = v
Mirrored(g) == \A u, v \in Nodes(g) : v \in Kids(g, u) <=> u \in Pars(g, v)
\* nids are 0..n-1 in traversal order
Numbered(g, byNid) ==
  LET o == PreOrder(g, RootSet(g), byNid, NidTie(g))
  IN /\ Range(o) = Nodes(g)
     /\ \A i \in DOMAIN o : g.nodes[o[i]].nid = i - 1
DepthOK(g) ==
  \A u \in Nodes(g) :
     \/ u \in RootSet(g) /\ g.nodes[u].dep = 0
     \/ \E p \in Nodes(g) : u \in Kids(g, p) /\ g.nodes[u].dep = g.nodes[p].dep + 1
DistinctSiblings(g) ==
  /\ \A a, b \in RootSet(g) : Fr(g, a) = Fr(g, b) => a = b
  /\ \A u \in Nodes(g) : \A a, b \in Kids(g, u) : Fr(g, a) = Fr(g, b) => a = b

(* ------------------------------- equality ------------------------------- *)
(* Graph.__eq__ / Node.dag_equal: walk both graphs in step, children matched *)
(* after sorting by frame; shared nodes must be shared at the same places.   *)
(* Only used where siblings have distinct frames (the matching is then       *)
(* unique): the graphs are equal iff they have the same pairs of call paths  *)
(* ending at one node.                                                       *)
SharedPaths(g) == LET P == PathNames(g) IN {P[u] : u \in Nodes(g)}
GraphEq(g, h) == SharedPaths(g) = SharedPaths(h)

\* m is an isomorphism from g to h preserving frames, child order-insensitively
IsIso(g, h, m) ==
  /\ DOMAIN m = Nodes(g) /\ {m[u] : u \in Nodes(g)} = Nodes(h)
  /\ Cardinality(Nodes(g)) = Cardinality(Nodes(h))
  /\ \A u \in Nodes(g) : /\ Fr(g, u) = Fr(h, m[u])
                         /\ {m[c] : c \in Kids(g, u)} = Kids(h, m[u])
                         /\ {m[c] : c \in Pars(g, u)} = Pars(h, m[u])
                         /\ Len(g.nodes[u].ch) = Len(h.nodes[m[u]].ch)
                         /\ Len(g.nodes[u].pa) = Len(h.nodes[m[u]].pa)
  /\ {m[r] : r \in RootSet(g)} = RootSet(h)
  /\ Len(g.roots) = Len(h.roots)

(* --------------------- merging equal call paths ------------------------- *)
(* The coarsest graph in which siblings (and roots) have distinct frames:     *)
(* the least equivalence that identifies equal-frame roots and equal-frame    *)
(* children of equivalent nodes.  A partition is a function node -> block.    *)
RECURSIVE MergeFix(_, _, _)
MergeFix(nodes, fr, st) ==
  (* st.block : node -> representative set; merge one pair of groups at a time *)
  LET groups == {st.rootset} \cup { UNION {st.kids[u] : u \in b} : b \in {st.block[v] : v \in nodes} }
      bad == { <<a, b>> \in (UNION { G \X G : G \in groups }) :
                  fr[a] = fr[b] /\ st.block[a] # st.block[b] }
  IN IF bad = {} THEN st.block
     ELSE LET pr == CHOOSE x \in bad : TRUE
              nb == st.block[pr[1]] \cup st.block[pr[2]]
          IN MergeFix(nodes, fr, [st EXCEPT !.block = [u \in nodes |-> IF u \in nb THEN nb ELSE @[u]]])
MergeClasses(nodes, fr, kids, rootset) ==
  MergeFix(nodes, fr, [block |-> [u \in nodes |-> {u}], kids |-> kids, rootset |-> rootset])
=============================================================================
