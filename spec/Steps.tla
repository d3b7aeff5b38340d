-------------------------------- MODULE Steps --------------------------------
(* One step of a scenario: which clauses of the specification the event x       *)
(* violates in the heap h (handle -> graphframe), where grp says which of them  *)
(* share data, ctx is the scenario's context, and aux the state of profilers,   *)
(* timers and their files.  Used by Trace (recorded executions of the real      *)
(* code) and by MC_Hist (executions of the generative model).                   *)
EXTENDS Ops, Query, Render, Sources, Keys, Profiles, Protocol

Put(chg, h) == [i \in DOMAIN chg \cup DOMAIN h |-> IF i \in DOMAIN chg THEN chg[i] ELSE h[i]]
Empty == [i \in {} |-> 0]

(* ---- which graphframes an operation may change (C26) ------------------------ *)
InPlace == {"sum", "updinc", "genexc", "drop", "poke", "iarith", "normalize"}
MakesNew == {"copy", "deepcopy", "gcopy", "squash", "filter", "qfilter", "arith", "groupby",
             "union", "uniondup", "roundtrip", "literal", "h5.read"}
MayChange(x, h, grp) ==
  CASE x.op = "unify" -> Range(x.in)
    [] x.op = "edit" -> IF x.a.what \in {"frame", "link", "root"}
                        THEN {i \in DOMAIN h : h[i].gid = h[x.in[1]].gid}
                        \* a shallow copy shares nested metadata
                        ELSE IF x.a.what = "metanested" THEN {i \in DOMAIN h : grp[i] = grp[x.in[1]]}
                        ELSE {x.in[1]}
    [] x.op \in InPlace -> {x.in[1]} \cup {i \in DOMAIN h : grp[i] = grp[x.in[1]]}
    [] OTHER -> {}
PureErr(x, h, grp) ==
  LET ch == (DOMAIN x.chg \cap DOMAIN h) \ MayChange(x, h, grp) IN
  UNION {Chk("pure", ch = {}),
         Chk("fresh", x.op \in MakesNew /\ x.res # "" => x.res \notin DOMAIN h),
         Chk("returns", x.op \in MakesNew /\ x.exc = "" => x.res # "")}

NewGrp(x, i, grp) == IF x.op \in {"copy"} /\ i = x.res THEN grp[x.in[1]] ELSE i

(* ---- the operations ------------------------------------------------------------ *)
OpErr(x, h, n, ctx) ==
  LET s == h[x.in[1]]     \* first operand before
      t == n[x.in[1]]     \* first operand after
      r == n[x.res]       \* result
      ok == x.exc = ""
      skip == ~ok /\ x.res = ""
  IN
  CASE x.op \in {"begin", "new", "poke", "edit", "pure"} -> Chk("call.raised", ok)
    [] x.op = "construct" -> IF skip THEN {"construct.raised"} ELSE
         UNION {Chk("construct.lists", r.exc = <<>> /\ r.inc = <<>> /\ r.dm = "time" /\ r.md = "{}"),
                Chk("construct.data", r.rows = s.rows /\ r.cols = s.cols /\ r.ixn = s.ixn
                                      /\ r.nodes = s.nodes /\ r.roots = s.roots /\ r.gid = s.gid)}
    \* a call that must be refused
    [] x.op = "refuse" -> Chk("refuse.accepted", IF x.a.err = "" THEN x.exc # "" ELSE x.exc = x.a.err)
    [] x.op = "wf" -> IF ok THEN UNION {WFErr(n[i]) : i \in DOMAIN x.chg} ELSE {"call.raised"}
    [] x.op = "metrics" -> Chk("metrics.listed", x.out.cols = s.exc \o s.inc)
    [] x.op = "traverse" -> TraverseErr(s, x)
    [] x.op = "paths" -> PathsErr(s, x)
    [] x.op = "eq" -> EqErr(h[x.in[1]], h[x.in[2]], x)
    [] x.op = "nodeeq" -> NodeEqErr(h[x.in[1]], h[x.in[2]], x)
    [] x.op = "copy" -> IF skip THEN {"copy.raised"} ELSE CopyErr(s, r, x)
    [] x.op = "deepcopy" -> IF skip THEN {"deepcopy.raised"} ELSE DeepcopyErr(s, r, x)
    [] x.op = "gcopy" -> IF skip THEN {"gcopy.raised"} ELSE GraphCopyErr(s, r, x)
    [] x.op = "union" -> IF skip THEN {"union.raised"} ELSE UnionErr(h[x.in[1]], h[x.in[2]], r, x)
    [] x.op = "uniondup" -> IF skip THEN {"union.raised"} ELSE UnionDupErr(h[x.in[1]], h[x.in[2]], r, x)
    [] x.op = "unify" -> UnifyErr(h[x.in[1]], h[x.in[2]], n[x.in[1]], n[x.in[2]], x)
    [] x.op = "arith" -> IF skip THEN {"arith.raised"} ELSE ArithErr(h[x.in[1]], h[x.in[2]], r, x)
    [] x.op = "iarith" -> Chk("iarith.result", x.res = x.in[1]) \cup ArithErr(h[x.in[1]], h[x.in[2]], t, x)
    [] x.op = "normalize" -> NormalizeErr(s, t, x)
    [] x.op = "squash" -> IF skip THEN {"squash.raised"} ELSE SquashErr(ctx, s, r, x.a.upd)
    [] x.op = "filter" -> FilterErr(ctx, s, IF ok THEN r ELSE s, x)
    [] x.op = "filterbad" -> FilterBadErr(s, x)
    [] x.op = "filterraise" -> FilterRaiseErr(s, x)
    [] x.op = "query" -> QueryErr(ctx, s, x)
    [] x.op = "qfilter" -> QFilterErr(ctx, s, IF ok THEN r ELSE s, x)
    [] x.op = "badquery" -> BadQueryErr(x)
    [] x.op = "crash" -> {"crash"}
    [] x.op = "sum" -> SumErr(s, t, x)
    [] x.op = "updinc" -> UpdateIncErr(ctx, s, t, x)
    [] x.op = "genexc" -> GenExcErr(s, t, x)
    [] x.op = "drop" -> DropErr(s, t, x)
    [] x.op = "groupby" -> IF skip THEN {"groupby.raised"} ELSE GroupbyErr(s, r, x)
    [] x.op = "tree" -> TreeErr(s, x)
    [] x.op = "dot" -> DotErr(s, x)
    [] x.op = "flame" -> FlameErr(s, x)
    [] x.op = "toliteral" -> LitOutErr(s, x)
    [] x.op = "fromliteral" -> FromLiteralErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "fromlists" -> FromListsErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "cprofile" -> CProfileErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "gprof" -> GprofErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "pyinstrument" -> PyinstrumentErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "timemory" -> TimemoryErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "hpctoolkit" -> HpcErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "caliper" -> CaliperErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "calinative" -> CaliNativeErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "frames" -> FramesErr(ctx, x)
    [] x.op = "nodes" -> NodesErr(ctx, x)
    [] x.op = "spot" -> SpotErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "tau" -> TauErr(ctx, IF ok THEN r ELSE x, x)
    [] x.op = "frombad" -> FromBadErr(x)
    [] x.op = "roundtrip" -> IF skip THEN {"roundtrip.raised"} ELSE RoundtripErr(s, r, x)
    [] x.op = "literal" -> IF skip THEN {"literal.raised"} ELSE LiteralRTErr(s, r, x)

(* a projection that could not be taken means the object is broken               *)
Broken(x) == {i \in DOMAIN x.chg : x.chg[i].err # ""}
\* the forest a visualization gets from a graphframe
ForestOf(s) ==
  LET nid(u) == s.nodes[u].nid
      us == Nodes(s)
      node == [i \in {nid(u) : u \in us} |-> CHOOSE u \in us : nid(u) = i]
      row == [i \in DOMAIN node |-> CHOOSE r \in Range(s.rows) : r.u = node[i]]
      at(c) == CHOOSE j \in DOMAIN s.cols : s.cols[j] = c
      ms == {m \in Range(s.exc) \cup Range(s.inc) : SubSeq(m, 1, 1) # "_"}
      val(v) == IF IsNum(v) THEN v ELSE Zero
  IN [ids |-> DOMAIN node, roots |-> [i \in DOMAIN s.roots |-> nid(s.roots[i])],
      kids |-> [i \in DOMAIN node |-> {nid(c) : c \in Kids(s, node[i])}],
      met |-> [i \in DOMAIN node |-> [m \in ms |-> val(row[i].c[at(m)])]],
      nm |-> [i \in DOMAIN node |-> row[i].c[at("name")][4]], ms |-> ms]
VisForest(x, h) == IF x.op = "vis.open" THEN ForestOf(h[x.in[1]]) ELSE NoForest
\* the state of profilers, timers and visualizations after the event
AuxNext(aux, x, h) ==
  IF x.op = "begin" THEN Aux0
  ELSE IF x.op \in VisOps THEN [aux EXCEPT !.vis = VisNext(@, x, VisForest(x, h))]
  ELSE IF x.op \in StoreOps THEN [aux EXCEPT !.store = StoreNext(@, x, h)]
  ELSE IF x.op \in Protocols THEN ProtoNext(aux, x) ELSE aux
Err(x, h, grp, ctx, aux) ==
  IF Broken(x) # {} THEN {"object.broken"}
  ELSE IF x.op \in VisOps THEN VisErr(aux.vis, x, VisForest(x, h), Range(h[x.in[1]].inc)) \cup PureErr(x, h, grp)
  ELSE IF x.op \in StoreOps THEN StoreErr(aux.store, x, Put(x.chg, h)) \cup PureErr(x, h, grp)
  ELSE IF x.op \in Protocols THEN ProtoErr(aux, x)
  ELSE OpErr(x, h, Put(x.chg, h), ctx) \cup (IF x.op \in {"begin", "new", "wf"} THEN {} ELSE PureErr(x, h, grp))
=============================================================================
