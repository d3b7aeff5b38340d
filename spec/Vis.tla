--------------------------------- MODULE Vis ---------------------------------
(* The interactive tree visualization of a graphframe: what it shows after each  *)
(* thing the user does, the numbers it gives for what it hides, and the query    *)
(* that takes the shown tree back to Python.                                     *)
(* Forest (F): [ids, roots: sequence, kids: id -> its children, met: id -> metric *)
(*   -> value, nm: id -> name, ms: the metrics]; ids are hatchet's node ids.      *)
(* State (v):                                                                     *)
(*   F      : the forest                                                          *)
(*   kids   : id -> what stands below the node: items [of, agg]; a node u itself  *)
(*            is [of |-> {u}, agg |-> FALSE], an aggregate stands for the subtrees *)
(*            of all of its nodes.  Hidden nodes keep what stood below them.       *)
(*   gone   : nodes composed with their parents                                    *)
(*   metric : the metric chosen, first : the one it began with                     *)
(*   prune  : is mass pruning enabled                                              *)
(*   order  : the roots in the order they are shown                                *)
EXTENDS Values

Single(u) == [of |-> {u}, agg |-> FALSE]
Hid(S) == [of |-> S, agg |-> TRUE]
NoForest == [ids |-> {}, roots |-> <<>>, kids |-> [i \in {} |-> 0], met |-> [i \in {} |-> 0],
             nm |-> [i \in {} |-> ""], ms |-> {}]
Vis0 == [F |-> NoForest, kids |-> [i \in {} |-> 0], gone |-> {}, metric |-> "", first |-> "",
         prune |-> FALSE, order |-> <<>>]
VisOps == {"vis.open", "vis.toggle", "vis.compose", "vis.prune", "vis.metric", "vis.mass", "vis.view",
           "vis.snapshot", "vis.query", "vis.select"}

(* ---- pruning ------------------------------------------------------------------ *)
RECURSIVE Under(_, _)
Under(kids, u) == {u} \cup UNION {Under(kids, c) : c \in kids[u]}
\* the tree that shows the nodes of `want', whatever leads to them, and every root;
\* the other children of a shown node are hidden in one aggregate
Pruned(F, want) ==
  LET keep == TLCEval({u \in F.ids : Under(F.kids, u) \cap want # {}})
      shownset == keep \cup {F.roots[i] : i \in DOMAIN F.roots}
  IN [u \in F.ids |-> IF u \notin shownset THEN {Single(c) : c \in F.kids[u]}
                      ELSE LET h == F.kids[u] \ keep
                           IN {Single(c) : c \in F.kids[u] \cap keep} \cup (IF h = {} THEN {} ELSE {Hid(h)})]
NonZero(F, m) == {u \in F.ids : F.met[u][m] # Zero}
Within(F, m, lo, hi) == {u \in NonZero(F, m) : ~NLt(F.met[u][m], lo) /\ ~NLt(hi, F.met[u][m])}

(* ---- what is shown -------------------------------------------------------------- *)
RECURSIVE ShownFrom(_, _)
ShownFrom(kids, u) == {u} \cup UNION {ShownFrom(kids, c) : c \in UNION {i.of : i \in {j \in kids[u] : ~j.agg}}}
Shown(v) == UNION {ShownFrom(v.kids, v.F.roots[i]) : i \in DOMAIN v.F.roots}
\* everything that is shown, with the node it stands below (-1: none)
ShownItems(v) == {[up |-> -1, of |-> {v.F.roots[i]}, agg |-> FALSE] : i \in DOMAIN v.F.roots}
            \cup UNION {{[up |-> u, of |-> i.of, agg |-> i.agg] : i \in v.kids[u]} : u \in Shown(v)}
\* everything that stands in the subtree of u, shown or hidden
RECURSIVE Standing(_, _)
Standing(kids, u) == {u} \cup UNION {Standing(kids, c) : c \in UNION {i.of : i \in kids[u]}}

(* ---- what an aggregate says about the subtrees it hides -------------------------- *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN Zero ELSE LET u == CHOOSE u \in S : TRUE IN NAdd(f[u], SumOf(f, S \ {u}))
\* the average of their totals; the value at their top if it is inclusive
Figure(v, S, m, inclusive) ==
  LET per == [u \in S |-> IF inclusive THEN v.F.met[u][m]
                          ELSE SumOf([w \in v.F.ids |-> v.F.met[w][m]], Standing(v.kids, u))]
  IN NMul(SumOf(per, S), <<0, 1, Cardinality(S), "">>)

(* ---- what the user can do --------------------------------------------------------- *)
Replace(v, p, i, new) == [v EXCEPT !.kids[p] = (@ \ {i}) \cup new]
\* the shown item that is node (or stands for, among others) id, and what it stands below
At(v, id, agg) == {<<p, i>> \in {<<p, i>> \in Shown(v) \X UNION {v.kids[p] : p \in Shown(v)} : i \in v.kids[p]} :
                     i.agg = agg /\ id \in i.of}
Toggle(v, id, agg) ==
  LET a == At(v, id, agg)  pi == CHOOSE pi \in a : TRUE IN
  IF a = {} THEN v      \* a root stays
  ELSE IF agg THEN Replace(v, pi[1], pi[2], {Single(u) : u \in pi[2].of})
  ELSE Replace(v, pi[1], pi[2], {Hid({id})})
Compose(v, id) ==
  LET a == At(v, id, FALSE)  pi == CHOOSE pi \in a : TRUE IN
  IF a = {} THEN v ELSE [Replace(v, pi[1], pi[2], v.kids[id]) EXCEPT !.gone = @ \cup {id}]
Rebuilt(v, want) == [v EXCEPT !.kids = Pruned(v.F, want), !.gone = {}]
PruneTo(v, lo, hi) == Rebuilt(v, Within(v.F, v.metric, lo, hi))
Choose(v, m) == LET n == [v EXCEPT !.metric = m] IN IF v.prune THEN Rebuilt(n, NonZero(v.F, v.first)) ELSE n
Open(F, m, order) ==
  Rebuilt([Vis0 EXCEPT !.F = F, !.metric = m, !.first = m, !.order = order], NonZero(F, m))

VisNext(v, x, F) ==
  CASE x.op = "vis.open" -> IF x.out.trees = <<>> \/ x.out.primary \notin F.ms THEN Vis0
                            ELSE Open(F, x.out.primary, [i \in DOMAIN x.out.trees |-> x.out.trees[i][1].id])
    [] x.op = "vis.toggle" -> Toggle(v, x.a.id, x.a.agg)
    [] x.op = "vis.compose" -> Compose(v, x.a.id)
    [] x.op = "vis.prune" -> PruneTo(v, x.a.lo, x.a.hi)
    [] x.op = "vis.metric" -> IF x.a.primary THEN Choose(v, x.a.m) ELSE v
    [] x.op = "vis.mass" -> [v EXCEPT !.prune = ~@]
    [] OTHER -> v

(* ---- what is observed --------------------------------------------------------------- *)
AllItems(x) == FlattenSeq(x.out.trees)
SeqSet(s) == {s[i] : i \in DOMAIN s}
\* the figures the visualization gives, which are rounded and abbreviated
Near(v, t) == IsNum(v) /\ t.s > 0 /\ IsNum(t.v)
              /\ LET d == NAdd(v, NNeg(NMul(t.v, IntV(t.s)))) IN ~NLt(Rat(t.s, 100), IF d[2] < 0 THEN NNeg(d) ELSE d)
Label(n, it, name) == IF ~it.agg THEN name[CHOOSE u \in it.of : TRUE]
                      ELSE IF Cardinality(it.of) = 1 THEN name[CHOOSE u \in it.of : TRUE] \o " Subtree"
                      ELSE "Children of: " \o name[it.up]
Given(n, it, m, incl) == IF it.agg THEN Figure(n, it.of, m, m \in incl) ELSE n.F.met[CHOOSE u \in it.of : TRUE][m]
SelectErr(n, x, incl) ==
  LET its == ShownItems(n)
      want == [k \in DOMAIN x.a.items |-> CHOOSE i \in its : i.agg = x.a.items[k].agg /\ x.a.items[k].id \in i.of]
  IN UNION {{c \in {"select.columns"} : x.out.head # <<"name">> \o x.out.metrics},
            {c \in {"select.rows"} : Len(x.out.rows) # Len(want)},
            {c \in {"select.labels"} : Len(x.out.rows) = Len(want)
               /\ \E k \in DOMAIN want : x.out.rows[k].label # Label(n, want[k], n.F.nm)},
            {c \in {"select.values"} : Len(x.out.rows) = Len(want) /\ \E k \in DOMAIN want :
               \/ Len(x.out.rows[k].vals) # Len(x.out.metrics)
               \/ \E j \in DOMAIN x.out.metrics : ~Near(Given(n, want[k], x.out.metrics[j], incl), x.out.rows[k].vals[j])}}
\* the histogram behind the pruning slider: every shown node whose metric is not zero
BinErr(n, x) ==
  LET b == x.out.bins
      ids == FlattenSeq([i \in DOMAIN b |-> b[i].ids])
      val(u) == n.F.met[u][n.metric]
  IN UNION {{c \in {"bins.nodes"} : SeqSet(ids) # Shown(n) \cap NonZero(n.F, n.metric) \/ Len(ids) # Cardinality(SeqSet(ids))},
            {c \in {"bins.ranges"} : \E i \in DOMAIN b : \E u \in SeqSet(b[i].ids) \cap n.F.ids :
               NLt(val(u), b[i].lo) \/ NLt(b[i].hi, val(u))},
            {c \in {"bins.contiguous"} : \E i \in DOMAIN b : i + 1 \in DOMAIN b /\ b[i].hi # b[i + 1].lo}}
VisErr(v, x, F, incl) ==
  LET n == VisNext(v, x, F)
      its == AllItems(x)
      seen == {[up |-> its[i].up, of |-> SeqSet(its[i].of), agg |-> its[i].agg] : i \in DOMAIN its}
      want == ShownItems(n)
      aggs == {i \in DOMAIN its : its[i].agg}
      same == seen = want
  IN
  UNION {{c \in {"vis.error"} : x.out.errs # <<>>},
         IF n.F = NoForest \/ n.F.ids = {} THEN {"vis.empty"} ELSE
         UNION {{c \in {"vis.shown"} : ~same \/ Len(its) # Cardinality(want) \/ \E i \in DOMAIN its : Len(its[i].of) # Cardinality(SeqSet(its[i].of))},
                {c \in {"vis.prototype"} : \E i \in aggs : its[i].id \notin SeqSet(its[i].of) \/ ~its[i].leaf},
                {c \in {"vis.order"} : [i \in DOMAIN x.out.trees |-> x.out.trees[i][1].id] # n.order
                                       \/ SeqSet(n.order) # SeqSet(n.F.roots)},
                {c \in {"vis.menu"} : x.out.menu # [i \in DOMAIN n.order |-> n.F.nm[n.order[i]]]},
                {c \in {"vis.metrics"} : SeqSet(x.out.metrics) # n.F.ms \/ Len(x.out.metrics) # Cardinality(n.F.ms)},
                {c \in {"vis.state"} : x.out.primary # n.metric \/ x.out.prune # n.prune},
                {c \in {"vis.figures"} : same /\ \E i \in aggs :
                   \/ DOMAIN its[i].m # n.F.ms
                   \/ \E m \in n.F.ms : its[i].m[m] # Figure(n, SeqSet(its[i].of), m, m \in incl)},
                IF x.op = "vis.open" \/ (x.op = "vis.metric" /\ x.a.primary) THEN BinErr(n, x) ELSE {},
                {c \in {"vis.query"} : x.op = "vis.query" /\ SeqSet(x.out.found) # n.F.ids},
                {c \in {"vis.snapshot"} : x.op = "vis.snapshot"
                   /\ SeqSet(x.out.found) # Shown(n) \cup {its[i].id : i \in aggs}},
                IF x.op = "vis.select" /\ same THEN SelectErr(n, x, incl) ELSE {}}}
=============================================================================
