------------------------------ MODULE Profiles -------------------------------
(* The graphframes described by HPCToolkit databases (C22), Caliper profiles   *)
(* (C23) and TAU profiles (C24).                                               *)
EXTENDS Sources

\* the columns named in drop left out (they are judged separately)
Without(t, drop) ==
  LET s == SelectSeq([j \in DOMAIN t.cols |-> j], LAMBDA j: t.cols[j] \notin drop)
  IN [t EXCEPT !.cols = [j \in DOMAIN s |-> t.cols[s[j]]],
               !.rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.c = [j \in DOMAIN s |-> t.rows[i].c[s[j]]]]]]
BaseName(s) == LET S == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"}
               IN IF S = {} THEN s ELSE SubSeq(s, Max(S) + 1, Len(s))

(* ------------------------------- HPCToolkit ---------------------------------- *)
(* doc.els: the elements of the call path section in document order,            *)
(*   [d depth, tag, i id, l line, n procedure name, f file ("" if not given),    *)
(*    lm load module]                                                            *)
(* doc.metrics: metric names in the order of their ids;                          *)
(* doc.files: [rank, thread, v: id -> sequence of metric values]                 *)
HpcMetric(n) == CASE n \in {"CPUTIME (usec) (E)", "CPUTIME (sec) (E)"} -> "time"
                  [] n \in {"CPUTIME (usec) (I)", "CPUTIME (sec) (I)"} -> "time (inc)"
                  [] OTHER -> n
IsInc(n) == HasSub(n, "(inc)") \/ HasSub(n, "(I)")
\* call sites and unnamed procedures are no nodes
HpcNode(e) == ~(e.tag = "C" \/ (e.tag = "Pr" /\ e.n = ""))
RECURSIVE HpcUp(_, _)
HpcUp(es, i) == LET j == Above(es, i) IN IF j = 0 \/ HpcNode(es[j]) THEN j ELSE HpcUp(es, j)
RECURSIVE HpcFile(_, _)
HpcFile(es, i) == IF es[i].f # "" THEN es[i].f ELSE HpcFile(es, Above(es, i))
HpcName(es, i) ==
  LET e == es[i]   up == Above(es, i) IN
  CASE e.tag \in {"PF", "Pr"} ->
         IF up = 0 \/ es[up].l = 0 THEN e.n ELSE ToString(es[up].l) \o ":" \o e.n
    [] e.tag = "L" -> "Loop@" \o BaseName(HpcFile(es, i)) \o ":" \o ToString(e.l)
    [] e.tag = "S" -> BaseName(HpcFile(es, i)) \o ":" \o ToString(e.l)
HpcFrame(C, es, i) ==
  LET e == es[i]   place == {<<StrV(C, "file"), StrV(C, HpcFile(es, i))>>, <<StrV(C, "line"), IntV(e.l)>>} IN
  CASE e.tag \in {"PF", "Pr"} -> FrameOf(C, {<<StrV(C, "type"), StrV(C, "function")>>, <<StrV(C, "name"), StrV(C, HpcName(es, i))>>})
    [] e.tag = "L" -> FrameOf(C, place \cup {<<StrV(C, "type"), StrV(C, "loop")>>})
    [] e.tag = "S" -> FrameOf(C, place \cup {<<StrV(C, "type"), StrV(C, "statement")>>})
HpcModel(C, doc) ==
  LET es == doc.els
      I == {i \in DOMAIN es : HpcNode(es[i])}
      up == [i \in I |-> HpcUp(es, i)]
      K == {Key0(i) : i \in I}
      of == [k \in K |-> CHOOSE i \in I : Key0(i) = k]
      mets == [j \in DOMAIN doc.metrics |-> HpcMetric(doc.metrics[j])]
      ns == SetToSeq(I)
      threads == \E a \in DOMAIN doc.files : doc.files[a].thread # doc.files[1].thread
      stmts(i) == {j \in DOMAIN es : es[j].tag = "S" /\ Above(es, j) = i}
      value(f, i, m) == IF IsInc(mets[m]) THEN f.v[es[i].i][m]
                        ELSE FoldSet(LAMBDA j, a: Sub(a, f.v[es[j].i][m]), f.v[es[i].i][m], stmts(i))
      row(f, i) == LET e == es[i] IN
        [u |-> Key0(i), ix |-> <<IntV(f.rank)>> \o (IF threads THEN <<IntV(f.thread)>> ELSE <<>>),
         c |-> <<IntV(e.i), StrV(C, HpcName(es, i)), StrV(C, e.tag), StrV(C, HpcFile(es, i)), IntV(e.l),
                 IF e.tag \in {"PF", "Pr"} THEN StrV(C, e.lm) ELSE None>> \o [m \in DOMAIN mets |-> value(f, i, m)]]
      nf == Len(doc.files)
  IN Model([fr |-> [k \in K |-> HpcFrame(C, es, of[k])],
            ch |-> [k \in K |-> LET s == SelectSeq([i \in DOMAIN es |-> i], LAMBDA i: i \in I /\ up[i] = of[k])
                                IN [j \in DOMAIN s |-> Key0(s[j])]],
            roots |-> LET s == SelectSeq([i \in DOMAIN es |-> i], LAMBDA i: i \in I /\ up[i] = 0) IN [j \in DOMAIN s |-> Key0(s[j])],
            rows |-> [q \in 1..(nf * Len(ns)) |-> row(doc.files[((q - 1) % nf) + 1], ns[((q - 1) \div nf) + 1])],
            cols |-> <<"nid", "name", "type", "file", "line", "module">> \o mets,
            exc |-> SelectSeq(mets, LAMBDA m: ~IsInc(m)), inc |-> SelectSeq(mets, IsInc),
            ixn |-> <<"rank">> \o (IF threads THEN <<"thread">> ELSE <<>>)])
\* the correspondence given by the ids, which number the elements of the document
ById(E, t) ==
  IF ~({"nid"} \subseteq Range(t.cols)) \/ ~CellsOK(t) THEN {} ELSE
  LET node(g) == [v \in {CellOf(g, g.rows[i], "nid") : i \in DOMAIN g.rows} |->
                    (g.rows[CHOOSE i \in DOMAIN g.rows : CellOf(g, g.rows[i], "nid") = v]).u]
      A == node(E)   B == node(t)
  IN IF DOMAIN A # DOMAIN B THEN {}
     ELSE {[u \in Nodes(E) |-> B[CHOOSE v \in DOMAIN A : A[v] = u]]}
HpcErr(C, t, x) ==
  IF x.exc # "" THEN {"hpctoolkit.raised"} ELSE
  LET E == HpcModel(C, x.a.doc) IN
  SourceErrM(E, t, "hpctoolkit", IF t.err = "" /\ Closed(t) THEN ById(E, t) ELSE {}) \cup OrderErr(t, "hpctoolkit")

(* ------------------------------------ TAU ------------------------------------- *)
(* doc.labels: what the names in callpaths say: [form, name, file, mod, l1, l2]     *)
(* doc.metrics: metric names                                                         *)
(* doc.profs: one per rank and thread: [rank, thread, recs], a record is             *)
(*   [p: the callpath (sequence of label numbers), calls, subrs, v: per metric       *)
(*    <<exclusive, inclusive>>]; the first record is the root's                       *)
TauMetric(n) == IF n \in {"TIME", "CPU_TIME"} THEN "time" ELSE n
TauName(b) == IF b.form \in {"unwindfile", "unwindmodule"} THEN "[UNWIND] " \o b.name ELSE b.name
TauFile(b) == CASE b.form \in {"plain", "module"} -> ""
                [] b.form \in {"unwindfile", "unwindmodule"} /\ HasSub(b.file, b.mod) /\ HasSub(b.file, ".so") -> ""
                [] OTHER -> b.file
TauModule(b) == CASE b.form \in {"plain", "file"} -> ""
                  [] b.form \in {"unwindfile", "unwindmodule"} /\ HasSub(b.file, b.mod) /\ HasSub(b.mod, ".c") -> ""
                  [] OTHER -> b.mod
TauErr(C, t, x) ==
  IF x.exc # "" THEN {"tau.raised"} ELSE
  LET doc == x.a.doc
      K == UNION {{<<a, b>> : b \in DOMAIN doc.profs[a].recs} : a \in DOMAIN doc.profs}
      rec(k) == doc.profs[k[1]].recs[k[2]]
      paths == UNION {{SubSeq(rec(k).p, 1, n) : n \in 1..Len(rec(k).p)} : k \in K}
      many(f(_)) == Cardinality({f(doc.profs[a]) : a \in DOMAIN doc.profs}) > 1
      ranks == many(LAMBDA q: q.rank)
      threads == many(LAMBDA q: q.thread)
      ixn == (IF ranks THEN <<"rank">> ELSE <<>>) \o (IF threads THEN <<"thread">> ELSE <<>>)
      ix(k) == LET q == doc.profs[k[1]] IN
               (IF ranks THEN <<IntV(q.rank)>> ELSE <<>>) \o (IF threads THEN <<IntV(q.thread)>> ELSE <<>>)
      recorded == {<<rec(k).p, ix(k)>> : k \in K}
      n == Len(ixn)
      rows0 == IF n = 0 THEN recorded
               ELSE {<<r[1], SubSeq(r[2], 1, n - 1) \o <<q[2][n]>>>> : r \in recorded, q \in recorded}
      lab(p) == doc.labels[p[Len(p)]]
      ps == SetToSeq(paths)
      key == [p \in paths |-> Key0(CHOOSE i \in DOMAIN ps : ps[i] = p)]
      cells(r) ==
        LET S == {k \in K : rec(k).p = r[1] /\ ix(k) = r[2]} IN
        IF S = {} THEN [j \in 1..(2 + 2 * Len(doc.metrics)) |-> Zero]
        ELSE LET e == rec(CHOOSE k \in S : TRUE)
             IN <<e.calls, e.subrs>> \o [j \in 1..(2 * Len(doc.metrics)) |-> e.v[(j + 1) \div 2][2 - (j % 2)]]
      rs == SetToSeq(rows0)
      mets == [j \in DOMAIN doc.metrics |-> TauMetric(doc.metrics[j])]
      cols == <<"name", "Calls", "Subrs">> \o [j \in 1..(2 * Len(mets)) |-> mets[(j + 1) \div 2] \o (IF j % 2 = 1 THEN "" ELSE " (inc)")]
      E == Model([fr |-> [u \in {key[p] : p \in paths} |->
                            LET p == CHOOSE p \in paths : key[p] = u IN
                            FrameOf(C, {<<StrV(C, "type"), StrV(C, "function")>>, <<StrV(C, "name"), StrV(C, TauName(lab(p)))>>})],
                  ch |-> [u \in {key[p] : p \in paths} |->
                            LET p == CHOOSE p \in paths : key[p] = u
                            IN SetToSeq({key[q] : q \in {q \in paths : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}})],
                  roots |-> SetToSeq({key[p] : p \in {p \in paths : Len(p) = 1}}),
                  rows |-> [i \in DOMAIN rs |-> [u |-> key[rs[i][1]], ix |-> rs[i][2],
                              c |-> <<StrV(C, TauName(lab(rs[i][1])))>> \o cells(rs[i])]],
                  cols |-> cols, ixn |-> ixn, exc |-> mets, inc |-> [j \in DOMAIN mets |-> mets[j] \o " (inc)"]])
      \* where a file or module is not given, the cell is empty (or zero)
      text(v, s) == IF s = "" THEN Missing(v) \/ v = Zero ELSE v = StrV(C, s)
      attrs == {"file", "module", "line", "end_line"}
      says(p, v, i) == LET r == RowAt(t, <<v, i>>)  b == lab(p) IN
        /\ text(CellOf(t, r, "file"), TauFile(b)) /\ text(CellOf(t, r, "module"), TauModule(b))
        /\ <<p, i>> \in recorded => CellOf(t, r, "line") = IntV(b.l1) /\ CellOf(t, r, "end_line") = IntV(b.l2)
      \* a single rank or thread may be kept as a column
      F == Without(t, attrs \cup {"rank", "thread"})
      PE == PathNames(E)   PT == PathNames(t)
      fits0(p, v) == /\ PT[v] = PE[key[p]]
                     /\ \A r \in recorded : r[1] = p => <<v, r[2]>> \in Keys(t) /\ says(p, v, r[2])
      \* the whole path fits: from each node up through one of its parents
      fits(p, v) == LET Up[z \in 0..Len(p)] ==
                          IF z = 0 THEN {} ELSE
                          {w \in Nodes(t) : fits0(SubSeq(p, 1, z), w)
                              /\ (IF z = 1 THEN w \in RootSet(t) ELSE \E q \in Up[z - 1] : w \in Kids(t, q))}
                    IN v \in Up[Len(p)]
      full == CHOOSE m \in {[u \in Nodes(E) |-> LET p == CHOOSE p \in paths : key[p] = u
                                                   S == {v \in Nodes(t) : fits(p, v)}
                                               IN IF S = {} THEN "" ELSE CHOOSE v \in S : TRUE]} : TRUE
      ok == t.err = "" /\ Closed(t) /\ CellsOK(t) /\ KeysUnique(t) /\ attrs \subseteq Range(t.cols)
  IN IF ~ok THEN WFErr(t) \cup {"tau.broken"}
     ELSE IF ~Acyclic(t) THEN {"tau.cyclic"}
     ELSE OrderErr(t, "tau") \cup
          SourceErrM(E, F, "tau", IF "" \in Range(full) THEN Corrs(E, F) ELSE {full}) \cup
          Guard("tau.attributes", "" \notin Range(full),
            Chk("tau.attributes", \A r \in rows0 : <<full[key[r[1]]], r[2]>> \in Keys(t) => says(r[1], full[key[r[1]]], r[2])))
          \cup Chk("tau.default", t.dm = "time (inc)")
(* ----------------------------------- Caliper ----------------------------------- *)
CaliName(n) == CASE n = "mpi.rank" -> "rank" [] n = "module#cali.sampler.pc" -> "module"
                 [] n \in {"sum#time.duration", "sum#avg#sum#time.duration"} -> "time"
                 [] n \in {"inclusive#sum#time.duration", "sum#avg#inclusive#sum#time.duration"} -> "time (inc)"
                 [] OTHER -> n
\* siblings come in the given order; ord: nodes of t -> their place
CaliOrderErr(t, ordered, ord, lbl) ==
  IF ~ordered THEN OrderErr(t, lbl) ELSE
  Guard(lbl \o ".sound", Sound(t), UNION {
    Chk(lbl \o ".numbered", Numbered(t, TRUE)), Chk(lbl \o ".sorted", RowsSorted(t)),
    Chk(lbl \o ".ordered", \A S \in {RootSet(t)} \cup {Kids(t, u) : u \in Nodes(t)} : \A a, b \in S \cap DOMAIN ord :
                             ord[a] < ord[b] => t.nodes[a].nid < t.nodes[b].nid)})

(* split JSON.  doc.nodes: [label, col, parent (0: none), file, line]; doc.cols:     *)
(* [name, value]; doc.rows: cells, references count nodes from 1; doc.md: metadata    *)
SrcLoc == "sourceloc#cali.sampler.pc"
CaliAddr == "source.function#callpath.address"
CaliperErr(C, t, x) ==
  IF x.exc # "" THEN {"caliper.raised"} ELSE
  LET doc == x.a.doc
      names == [j \in DOMAIN doc.cols |-> doc.cols[j].name]
      has(c) == c \in Range(names)
      pos(c) == CHOOSE j \in DOMAIN names : names[j] = c
      pn == IF has(CaliAddr) THEN CaliAddr ELSE "path"
      both == has(CaliAddr) /\ has("path")
      ranks == has("mpi.rank")
      lines == has(SrcLoc)
      nd == doc.nodes
      label(i) == IF nd[i].label # "" THEN nd[i].label
                  ELSE "UNKNOWN " \o ToString(Cardinality({j \in 1..(i - 1) : nd[j].label = ""}))
      N == {i \in DOMAIN nd : nd[i].col = pn}
      recs == SelectSeq(doc.rows, LAMBDA r: ~Missing(r[pos(pn)]))
      P(r) == r[pos(pn)][2]
      R(r) == IF ranks THEN <<r[pos("mpi.rank")]>> ELSE <<>>
      L(r) == IF lines THEN r[pos(SrcLoc)][2] ELSE 0
      J == DOMAIN recs
      locs == [i \in N |-> {L(recs[j]) : j \in {j \in J : P(recs[j]) = i}}]
      split == {i \in N : Cardinality(locs[i]) > 1}
      \* nodes of the result: <<path node, 0>> and <<path node, source line>>
      U == {<<i, 0>> : i \in N} \cup UNION {{<<i, z>> : z \in locs[i]} : i \in split}
      key(u) == Key0(u[1]) \o (IF u[2] = 0 THEN "" ELSE "/" \o ToString(u[2]))
      of == [k \in {key(u) : u \in U} |-> CHOOSE u \in U : key(u) = k]
      fr(u) == IF u[2] = 0
               THEN FrameOf(C, {<<StrV(C, "type"), StrV(C, IF pn = "path" THEN "region" ELSE "function")>>,
                                <<StrV(C, "name"), StrV(C, label(u[1]))>>})
               ELSE FrameOf(C, {<<StrV(C, "type"), StrV(C, "statement")>>, <<StrV(C, "file"), StrV(C, nd[u[2]].file)>>,
                                <<StrV(C, "line"), StrV(C, nd[u[2]].line)>>})
      nm(u) == IF u[2] = 0 THEN label(u[1]) ELSE BaseName(nd[u[2]].file) \o ":" \o nd[u[2]].line
      kids(u) == IF u[2] # 0 THEN {} ELSE {<<i, 0>> : i \in {i \in N : nd[i].parent = u[1]}} \cup {w \in U : w[1] = u[1] /\ w[2] # 0}
      keep == SelectSeq([j \in DOMAIN names |-> j], LAMBDA j: names[j] \notin {pn, "mpi.rank", "Node order", SrcLoc})
      vals == SelectSeq(keep, LAMBDA j: doc.cols[j].value)
      mets == [q \in DOMAIN vals |-> CaliName(names[vals[q]])]
      cols == <<"name">> \o [q \in DOMAIN keep |-> CaliName(names[keep[q]])] \o (IF lines THEN <<"file", "line">> ELSE <<>>)
      mine(u, r) == {j \in J : P(recs[j]) = u[1] /\ R(recs[j]) = r /\ (u[1] \in split => L(recs[j]) = u[2])}
      first(S) == recs[Min(S)]
      ref(c) == IF Missing(c) THEN None ELSE StrV(C, nd[c[2]].label)
      cell(S, j) == IF S = {} THEN (IF doc.cols[j].value THEN Zero ELSE None)
                    ELSE IF ~doc.cols[j].value THEN ref(first(S)[j])
                    ELSE first(S)[j]
      total(S, j) == FoldSet(LAMBDA a, s: Add(s, recs[a][j]), Zero, S)
      cells(u, r) ==
        LET S == mine(u, r) IN
        <<StrV(C, nm(u))>>
        \o [q \in DOMAIN keep |-> IF both /\ doc.cols[keep[q]].value THEN total(S, keep[q]) ELSE cell(S, keep[q])]
        \o (IF ~lines THEN <<>> ELSE IF S = {} THEN <<None, None>>
            ELSE <<StrV(C, nd[L(first(S))].file), StrV(C, nd[L(first(S))].line)>>)
      RS == IF ranks THEN {R(recs[j]) : j \in J} ELSE {<<>>}
      pairs == SetToSeq(U \X RS)
      E == Model([fr |-> [k \in DOMAIN of |-> fr(of[k])],
                  ch |-> [k \in DOMAIN of |-> SetToSeq({key(w) : w \in kids(of[k])})],
                  roots |-> SetToSeq({key(<<i, 0>>) : i \in {i \in N : nd[i].parent = 0}}),
                  rows |-> [q \in DOMAIN pairs |-> [u |-> key(pairs[q][1]), ix |-> pairs[q][2], c |-> cells(pairs[q][1], pairs[q][2])]],
                  cols |-> cols, ixn |-> IF ranks THEN <<"rank">> ELSE <<>>,
                  exc |-> SelectSeq(mets, LAMBDA c: ~HasSub(c, "(inc)")), inc |-> SelectSeq(mets, LAMBDA c: HasSub(c, "(inc)"))])
      ok == t.err = "" /\ Closed(t) /\ CellsOK(t) /\ "nid" \in Range(t.cols)
      nid(r) == CellOf(t, r, "nid")
      pnode(i) == {r.u : r \in {t.rows[a] : a \in {a \in DOMAIN t.rows : nid(t.rows[a]) = IntV(i - 1)}}}
      cand(u) == IF u[2] = 0 THEN pnode(u[1])
                 ELSE {v \in UNION {Kids(t, w) : w \in pnode(u[1])} : Fr(t, v) = fr(u)}
      found == \A u \in U : Cardinality(cand(u)) = 1
      m == [k \in DOMAIN of |-> CHOOSE v \in cand(of[k]) : TRUE]
      \* a node split by lines keeps a row of zeros, whose other columns say nothing
      own == {m[key(<<i, 0>>)] : i \in split}
      blank(g, us) == [g EXCEPT !.rows = [a \in DOMAIN @ |-> IF @[a].u \notin us THEN @[a]
                         ELSE [@[a] EXCEPT !.c = [b \in DOMAIN @ |-> IF g.cols[b] \in {"name"} \cup Range(mets) THEN @[b] ELSE None]]]]
  IN IF ~ok THEN WFErr(t) \cup {"caliper.broken"}
     ELSE IF ~found THEN WFErr(t) \cup {"caliper.nodes"}
     ELSE SourceErrM(blank(E, {key(<<i, 0>>) : i \in split}), blank(Without(t, {"nid"}), own), "caliper", {m})
          \cup Chk("caliper.ids", \A a, b \in DOMAIN t.rows : nid(t.rows[a]) = nid(t.rows[b]) <=> t.rows[a].u = t.rows[b].u)
          \cup CaliOrderErr(t, has("Node order"),
                 [v \in {m[key(<<i, 0>>)] : i \in {i \in N : locs[i] # {}}} |->
                    LET i == CHOOSE i \in N : m[key(<<i, 0>>)] = v
                    IN (first({j \in J : P(recs[j]) = i})[pos("Node order")])[2]], "caliper")
          \cup Chk("caliper.default", t.dm = "time") \cup Chk("caliper.metadata", t.md = doc.md)

(* native records.  doc.attrs: name -> [value, alias, str]; doc.recs: [p path, act,     *)
(* kind (activities of GPUs), ok (channel), c: name -> value]; doc.md: metadata;        *)
(* x.a: native, strs, level ("" unless a time series), part (which profile of it)       *)
\* columns of booleans become numbers where rows are filled with zeros
Nums(g) == [g EXCEPT !.rows = [a \in DOMAIN @ |-> [@[a] EXCEPT !.c = [b \in DOMAIN @ |-> AsNum(@[b])]]]]
Slot == "min#min#aggregate.slot"
CaliNativeErr(C, t, x) ==
  IF x.exc # "" THEN {"calinative.raised"} ELSE
  LET doc == x.a.doc
      rs == doc.recs
      get(j, c) == IF c \in DOMAIN rs[j].c THEN rs[j].c[c] ELSE None
      \* which profile of the time series each record belongs to
      series == x.a.level # ""
      lev == FoldLeft(LAMBDA acc, j:
               LET v == IF series THEN get(j, x.a.level) ELSE None   p == acc[Len(acc)] IN
               Append(acc, IF Missing(v) \/ v = p.v THEN p ELSE [v |-> v, n |-> p.n + 1]),
               <<[v |-> Zero, n |-> 1]>>, [j \in DOMAIN rs |-> j])
      levn(j) == lev[j + 1].n
      parts == lev[Len(lev)].n
      full(j) == rs[j].p \o (IF rs[j].act = "" THEN <<>> ELSE <<rs[j].act>>)
      sel == {j \in DOMAIN rs : rs[j].p # <<>> /\ rs[j].ok}
      wanted(c) == doc.attrs[c].str => c \in Range(x.a.strs) \/ c = "spot.channel"
      kept == {j \in sel : levn(j) < x.a.part /\ get(j, "timeseries.snapshot") = Zero}
      keptcols == {"loop.iterations", "loop.start_iteration", "timeseries.snapshot"}
      mine == kept \cup {j \in sel : levn(j) = x.a.part}
      value(j, c) == IF j \in kept /\ c \notin keptcols THEN None ELSE get(j, c)
      colsof(S) == {c \in UNION {DOMAIN rs[j].c : j \in S} : wanted(c)}
      own == colsof(mine \ kept) \cup (IF kept = {} THEN {} ELSE keptcols)
      A(c) == IF x.a.native \/ doc.attrs[c].alias = "" THEN c ELSE doc.attrs[c].alias
      B(c) == CaliName(A(c))
      dropped == {"Node order", "aggregate.slot"}
      ranks == "mpi.rank" \in own
      paths == UNION {{SubSeq(full(j), 1, z) : z \in 1..Len(full(j))} : j \in sel}
      ps == SetToSeq(paths)
      key == [p \in paths |-> Key0(CHOOSE i \in DOMAIN ps : ps[i] = p)]
      ftype(p) == LET S == {j \in sel : full(j) = p /\ rs[j].act # ""} IN IF S = {} THEN "function" ELSE rs[Min(S)].kind
      R(j) == IF ranks THEN <<get(j, "mpi.rank")>> ELSE <<>>
      RS == IF ranks THEN {R(j) : j \in mine} ELSE {<<>>}
      keep == SetToSeq({c \in own : c # "mpi.rank" /\ B(c) \notin dropped})
      cell(p, r, c) ==
        LET S == {j \in mine : full(j) = p /\ R(j) = r}
            T == {j \in S : ~Missing(value(j, c))}
        IN IF S = {} THEN (IF doc.attrs[c].value THEN Zero ELSE None)
           ELSE IF T = {} THEN None ELSE value(Min(T), c)
      pairs == SetToSeq(paths \X RS)
      mets == {c \in colsof(sel) : B(c) \in Range(t.cols) /\ doc.attrs[c].value /\ A(c) \notin dropped \cup {"mpi.rank", "loop.start_iteration"}}
      isinc(c) == HasSub(A(c), "(inc)") \/ HasSub(A(c), "inclusive")
      last(p) == p[Len(p)]
      E == Model([fr |-> [u \in {key[p] : p \in paths} |-> LET p == CHOOSE p \in paths : key[p] = u IN
                             FrameOf(C, {<<StrV(C, "type"), StrV(C, ftype(p))>>, <<StrV(C, "name"), StrV(C, last(p))>>})],
                  ch |-> [u \in {key[p] : p \in paths} |-> LET p == CHOOSE p \in paths : key[p] = u IN
                             SetToSeq({key[q] : q \in {q \in paths : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}})],
                  roots |-> SetToSeq({key[p] : p \in {p \in paths : Len(p) = 1}}),
                  rows |-> [i \in DOMAIN pairs |-> [u |-> key[pairs[i][1]], ix |-> pairs[i][2],
                              c |-> <<StrV(C, last(pairs[i][1]))>> \o [q \in DOMAIN keep |-> cell(pairs[i][1], pairs[i][2], keep[q])]]],
                  cols |-> <<"name">> \o [q \in DOMAIN keep |-> B(keep[q])], ixn |-> IF ranks THEN <<"rank">> ELSE <<>>,
                  exc |-> SetToSeq({B(c) : c \in {c \in mets : ~isinc(c)}}), inc |-> SetToSeq({B(c) : c \in {c \in mets : isinc(c)}})])
      \* columns only other profiles of the series have
      more == ({B(c) : c \in colsof(sel)} \cup dropped) \ Range(E.cols)
      ok == t.err = "" /\ Closed(t) /\ CellsOK(t) /\ KeysUnique(t) /\ "nid" \in Range(t.cols)
      nid(r) == CellOf(t, r, "nid")
      ordered == \E j \in sel : ~Missing(get(j, Slot))
      m == CHOOSE m \in Corrs(E, t) : TRUE
      slots(p) == {j \in sel : full(j) = p /\ ~Missing(get(j, Slot))}
      S0 == {p \in paths : slots(p) # {}}
  IN IF ~ok THEN WFErr(t) \cup {"calinative.broken"}
     ELSE IF ~Acyclic(t) THEN {"calinative.cyclic"}
     ELSE SourceErr(Nums(E), Nums(Without(t, {"nid"} \cup (IF series THEN more \ dropped ELSE {}))), "calinative")
          \cup Chk("calinative.ids", \A a, b \in DOMAIN t.rows : nid(t.rows[a]) = nid(t.rows[b]) <=> t.rows[a].u = t.rows[b].u)
          \cup (IF Corrs(E, t) = {} THEN {} ELSE
                CaliOrderErr(t, ordered, [v \in {m[key[p]] : p \in S0} |->
                   LET p == CHOOSE p \in S0 : m[key[p]] = v IN get(Min(slots(p)), Slot)[2]], "calinative"))
          \cup Chk("calinative.parts", x.a.parts = parts)
          \cup Chk("calinative.default", series \/
                 t.dm = (CASE "time (inc)" \in Range(E.cols) -> "time"
                           [] "avg#inclusive#sum#time.duration" \in Range(E.cols) -> "avg#inclusive#sum#time.duration"
                           [] Len(t.inc) > 0 -> t.inc[1] [] OTHER -> t.exc[1]))
          \cup Chk("calinative.metadata", t.md = doc.md)
=============================================================================
