------------------------------- MODULE Sources -------------------------------
(* What the constructors and readers must build: for each kind of source, a    *)
(* function from the abstract document to the graphframe it describes, and the *)
(* comparison of that graphframe with the one the real reader returned.        *)
(* Abstract documents are what the harness encodes into the file formats.      *)
EXTENDS Ops

\* a string value; C.rank is the scenario's table of string ranks
StrV(C, s) == <<4, IF s \in DOMAIN C.rank THEN C.rank[s] ELSE -1, 0, s>>

(* ------------------------------ frames -------------------------------------- *)
SortFrame(S) == SetToSortSeq(S, LAMBDA a, b: a[1][2] < b[1][2])
\* a frame from a set of <<attribute, value>> pairs; frames have a type
FrameOf(C, S) ==
  SortFrame(IF \E p \in S : p[1][4] = "type" THEN S
            ELSE S \cup {<<StrV(C, "type"), StrV(C, "None")>>})

(* ------------------------------ strings ------------------------------------- *)
HasSub(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

(* --------------------------- expected graphframes --------------------------- *)
(* M: fr, ch : functions of the node keys (strings), roots, rows, cols, exc,    *)
(* inc, ixn.  Completed with parents and a numbering.                           *)
Model(M) ==
  LET N == DOMAIN M.ch
      g0 == [nodes |-> [u \in N |-> [f |-> M.fr[u], ch |-> M.ch[u], nid |-> 0, dep |-> 0,
                                     pa |-> SetToSeq({p \in N : u \in Range(M.ch[p])})]],
             roots |-> M.roots, rows |-> M.rows, cols |-> M.cols, exc |-> M.exc, inc |-> M.inc, ixn |-> M.ixn]
      tie == LET o == SetToSeq(N) IN [u \in N |-> CHOOSE i \in DOMAIN o : o[i] = u]
      o == PreOrder(g0, Range(M.roots), FALSE, tie)
  IN [g0 EXCEPT !.nodes = [u \in N |-> [@[u] EXCEPT !.nid = IF u \in Range(o) THEN CHOOSE i \in DOMAIN o : o[i] = u ELSE -1]]]

\* t is the described graphframe; maps: the candidate correspondences
SourceErrM(E, t, lbl, maps) ==
  WFErr(t) \cup
  Guard(lbl \o ".sound", Sound(t),
   LET isos == {m \in maps : IsIso(E, t, m)} IN
   UNION {
    Chk(lbl \o ".lists", SameLists(E, t) /\ NoDup(t.exc) /\ NoDup(t.inc)),
    Chk(lbl \o ".columns", Range(E.cols) = Range(t.cols)),
    Chk(lbl \o ".index", E.ixn = t.ixn),
    Guard(lbl \o ".structure", isos # {},
     Guard(lbl \o ".rows", \E m \in isos :
               Len(E.rows) = Len(t.rows) /\ {<<m[k[1]], k[2]>> : k \in Keys(E)} = Keys(t),
      Chk(lbl \o ".values", Range(E.cols) \subseteq Range(t.cols) =>
             \E m \in isos : RowsAgree(E, t, m, Range(E.cols)))))})
SourceErr(E, t, lbl) ==
  IF t.err = "" /\ Closed(t) /\ ~Acyclic(t) THEN {lbl \o ".cyclic"}
  ELSE IF t.err # "" \/ ~Closed(t) THEN SourceErrM(E, t, lbl, {})
  ELSE SourceErrM(E, t, lbl, Corrs(E, t))
OrderErr(t, lbl) == Guard(lbl \o ".sound", Sound(t),
                      Chk(lbl \o ".numbered", Numbered(t, FALSE)) \cup Chk(lbl \o ".sorted", RowsSorted(t)))
\* graphs whose nodes are told apart by their frames, or by the values of some
\* columns (which may be cyclic)
NodesByFrame(E, t) ==
  IF {Fr(E, u) : u \in Nodes(E)} # {Fr(t, v) : v \in Nodes(t)} THEN {}
  ELSE {[u \in Nodes(E) |-> CHOOSE v \in Nodes(t) : Fr(t, v) = Fr(E, u)]}
ByCols(E, t, cols) ==
  IF ~(cols \subseteq Range(t.cols)) THEN {} ELSE
  LET k(g, r) == [c \in cols |-> CellOf(g, r, c)] IN
  IF {k(E, E.rows[i]) : i \in DOMAIN E.rows} # {k(t, t.rows[i]) : i \in DOMAIN t.rows} \/ RowNodes(E) # Nodes(E) THEN {}
  ELSE {[u \in Nodes(E) |-> LET r == E.rows[CHOOSE i \in DOMAIN E.rows : E.rows[i].u = u]
                            IN (t.rows[CHOOSE i \in DOMAIN t.rows : k(t, t.rows[i]) = k(E, r)]).u]}

(* ------------------------------- from_literal -------------------------------- *)
(* doc.ents: the dictionaries in reading order, [d depth, f frame pairs, nm name, *)
(* nid (-1 if absent), m metrics]; an entry with a known id repeats that node.   *)
Owner(es, i) == IF es[i].nid = -1 THEN i
                ELSE CHOOSE j \in 1..i : es[j].nid = es[i].nid /\ \A k \in 1..(j - 1) : es[k].nid # es[i].nid
LastBefore(es, i, d) == CHOOSE j \in 1..(i - 1) : es[j].d = d /\ \A k \in (j + 1)..(i - 1) : es[k].d # d
Above(es, i) == IF es[i].d = 0 THEN 0 ELSE LastBefore(es, i, es[i].d - 1)
Key0(i) == "e" \o ToString(i)
EntsGraph(es, own) ==
  LET I == DOMAIN es
      N == {own[i] : i \in I}
      kids(k) == SelectSeq([i \in I |-> i], LAMBDA i: Above(es, i) # 0 /\ own[Above(es, i)] = k)
  IN [keys |-> {Key0(k) : k \in N},
      of |-> [k \in {Key0(k) : k \in N} |-> CHOOSE n \in N : Key0(n) = k],
      ch |-> [k \in {Key0(k) : k \in N} |->
                LET n == CHOOSE n \in N : Key0(n) = k   s == kids(n)
                IN [j \in DOMAIN s |-> Key0(own[s[j]])]],
      roots |-> LET s == SelectSeq([i \in I |-> i], LAMBDA i: es[i].d = 0) IN [j \in DOMAIN s |-> Key0(own[s[j]])]]
LiteralModel(C, doc) ==
  LET es == doc.ents
      g == EntsGraph(es, [i \in DOMAIN es |-> Owner(es, i)])
      mets == SetToSeq(UNION {DOMAIN es[g.of[k]].m : k \in g.keys})
      cols == <<"name">> \o mets
      ks == SetToSeq(g.keys)
  IN Model([fr |-> [k \in g.keys |-> FrameOf(C, Range(es[g.of[k]].f))], ch |-> g.ch, roots |-> g.roots,
            rows |-> [i \in DOMAIN ks |-> LET e == es[g.of[ks[i]]] IN
                        [u |-> ks[i], ix |-> <<>>,
                         c |-> <<LET n == FrameAttr(e.f, "name") IN IF n = None THEN e.nm ELSE n>> \o [j \in DOMAIN mets |-> IF mets[j] \in DOMAIN e.m THEN e.m[mets[j]] ELSE NaN]]],
            cols |-> cols, ixn |-> <<>>,
            exc |-> SelectSeq(mets, LAMBDA x: ~HasSub(x, "(inc)")), inc |-> SelectSeq(mets, LAMBDA x: HasSub(x, "(inc)"))])
FromLiteralErr(C, t, x) ==
  IF x.exc # "" THEN {"fromliteral.raised"} ELSE
  LET es == x.a.doc.ents
      E == LiteralModel(C, x.a.doc)
      given == \A i \in DOMAIN es : es[i].nid # -1
  IN SourceErr(E, t, "fromliteral") \cup
     Guard("fromliteral.sound", Sound(t) /\ Acyclic(t),
       (IF given THEN Chk("fromliteral.ids", \E m \in IsoMaps(E, t) : \A i \in DOMAIN es :
                             t.nodes[m[Key0(Owner(es, i))]].nid = es[i].nid)
        ELSE Chk("fromliteral.numbered", Numbered(t, FALSE)))
       \cup Chk("fromliteral.sorted", RowsSorted(t)))

(* -------------------------------- from_lists ---------------------------------- *)
(* doc.ents: the list entries in reading order, [d, key node, f frame pairs];    *)
(* entries with one key are one Node object                                       *)
ListsModel(C, doc) ==
  LET es == doc.ents
      own == [i \in DOMAIN es |-> CHOOSE j \in 1..i : es[j].key = es[i].key /\ \A k \in 1..(j - 1) : es[k].key # es[i].key]
      g == EntsGraph(es, own)
      G == Model([fr |-> [k \in g.keys |-> FrameOf(C, Range(es[g.of[k]].f))], ch |-> g.ch, roots |-> g.roots,
                  rows |-> <<>>, cols |-> <<"time", "name", "time (inc)">>, exc |-> <<"time">>, inc |-> <<"time (inc)">>, ixn |-> <<>>])
      ks == SetToSeq(g.keys)
  IN [G EXCEPT !.rows = [i \in DOMAIN ks |->
        [u |-> ks[i], ix |-> <<>>, c |-> <<IntV(1), FrameAttr(G.nodes[ks[i]].f, "name"), IntV(Cardinality(Descend(G, ks[i])))>>]]]
FromListsErr(C, t, x) ==
  IF x.exc # "" THEN {"fromlists.raised"} ELSE
  SourceErr(ListsModel(C, x.a.doc), t, "fromlists")
  \cup Guard("fromlists.sound", Sound(t) /\ Acyclic(t), Chk("fromlists.numbered", Numbered(t, FALSE))
                                           \cup Chk("fromlists.sorted", RowsSorted(t)))
(* ------------------------ profiles of call graphs ----------------------------- *)
(* doc.fns: the functions [.., callers]; edges go from callers to callees and the  *)
(* functions without callers are the roots                                          *)
FnKey(i) == "f" \o ToString(i)
FnGraph(fns) ==
  LET I == DOMAIN fns IN
  [ch |-> [k \in {FnKey(i) : i \in I} |->
             LET n == CHOOSE i \in I : FnKey(i) = k
                 s == SelectSeq([i \in I |-> i], LAMBDA i: n \in Range(fns[i].callers))
             IN [j \in DOMAIN s |-> FnKey(s[j])]],
   roots |-> LET s == SelectSeq([i \in I |-> i], LAMBDA i: fns[i].callers = <<>>) IN [j \in DOMAIN s |-> FnKey(s[j])]]
FnFrame(C, name) == FrameOf(C, {<<StrV(C, "name"), name>>, <<StrV(C, "type"), StrV(C, "function")>>})
FnOf(fns, k) == fns[CHOOSE i \in DOMAIN fns : FnKey(i) = k]
\* pstats: one row per function with its recorded numbers
CProfileErr(C, t, x) ==
  IF x.exc # "" THEN {"cprofile.raised"} ELSE
  LET fns == x.a.doc.fns   g == FnGraph(fns)
      E == Model([fr |-> [k \in DOMAIN g.ch |-> FnFrame(C, FnOf(fns, k).name)], ch |-> g.ch, roots |-> g.roots,
                  cols |-> <<"file", "line", "name", "numcalls", "nativecalls", "time (inc)", "time">>,
                  rows |-> [i \in DOMAIN fns |-> LET f == fns[i] IN [u |-> FnKey(i), ix |-> <<>>,
                             c |-> <<f.file, f.line, f.name, f.cc, f.nc, f.ct, f.tt>>]],
                  exc |-> <<"time">>, inc |-> <<"time (inc)">>, ixn |-> <<>>])
  IN SourceErrM(E, t, "cprofile", IF Closed(t) THEN ByCols(E, t, {"file", "line", "name"}) ELSE {}) \cup OrderErr(t, "cprofile")
\* gprof2dot: percentages; functions without a label have no row
GprofErr(C, t, x) ==
  IF x.exc # "" THEN {"gprof.raised"} ELSE
  LET fns == x.a.doc.fns   g == FnGraph(fns)
      lab == SelectSeq([i \in DOMAIN fns |-> i], LAMBDA i: fns[i].label)
      E == Model([fr |-> [k \in DOMAIN g.ch |-> FnFrame(C, FnOf(fns, k).name)], ch |-> g.ch, roots |-> g.roots,
                  cols |-> <<"module", "name", "time (inc)", "time">>,
                  rows |-> [j \in DOMAIN lab |-> LET f == fns[lab[j]] IN [u |-> FnKey(lab[j]), ix |-> <<>>,
                             c |-> <<f.module, f.name, f.ct, f.tt>>]],
                  exc |-> <<"time">>, inc |-> <<"time (inc)">>, ixn |-> <<>>])
  IN SourceErrM(E, t, "gprof", IF Closed(t) THEN NodesByFrame(E, t) ELSE {}) \cup OrderErr(t, "gprof")
\* pyinstrument: a tree; the recorded time is inclusive, own time is what the
\* children do not account for
PyinstrumentErr(C, t, x) ==
  IF x.exc # "" THEN {"pyinstrument.raised"} ELSE
  LET es == x.a.doc.ents
      g == EntsGraph(es, [i \in DOMAIN es |-> i])
      own(i) == FoldLeft(LAMBDA a, j: IF Above(es, j) = i THEN Sub(a, es[j].time) ELSE a, es[i].time, [j \in DOMAIN es |-> j])
      E == Model([fr |-> [k \in g.keys |-> FnFrame(C, es[g.of[k]].fn)], ch |-> g.ch, roots |-> g.roots,
                  cols |-> <<"name", "file", "line", "time", "time (inc)", "is_application_code">>,
                  rows |-> [i \in DOMAIN es |-> [u |-> Key0(i), ix |-> <<>>,
                             c |-> <<es[i].fn, es[i].file, es[i].line, own(i), es[i].time, es[i].app>>]],
                  exc |-> <<"time">>, inc |-> <<"time (inc)">>, ixn |-> <<>>])
  IN SourceErr(E, t, "pyinstrument") \cup OrderErr(t, "pyinstrument")
(* --------------------------------- timemory ------------------------------------ *)
(* doc.metrics: seq of [name, sel (selected), labels (<<>> unless a vector),       *)
(*  parts: seq of [rank (-1 without ranks), ents]]; ents in reading order with       *)
(*  [d, dummy, form, head, func, file, line, tail, tid, pid, laps, inc, exc]; inc    *)
(*  and exc map a statistic to a value, or to a sequence of values (vectors).        *)
TMName(e) == CASE e.form = "plain" -> e.head
               [] e.form = "head" -> e.head
               [] e.tail # "" -> e.func \o "/" \o e.tail
               [] OTHER -> e.func
TMFile(e) == CASE e.form = "plain" -> "<unknown>"
               [] e.form = "line" -> "<unknown file>"
               [] OTHER -> e.file
TMLine(e) == IF e.form \in {"head", "full", "line"} THEN e.line ELSE "0"
RECURSIVE TMPath(_, _)
TMPath(es, i) == (IF es[i].d = 0 THEN <<>> ELSE TMPath(es, Above(es, i)))
                 \o (IF es[i].dummy THEN <<>> ELSE <<TMName(es[i])>>)
RECURSIVE Join(_, _)
Join(p, sep) == IF Len(p) = 0 THEN "" ELSE p[1] \o (IF Len(p) = 1 THEN "" ELSE sep \o Join(Tail(p), sep))
Dash(s) == FoldLeft(LAMBDA a, i: a \o (LET c == SubSeq(s, i, i) IN IF c \in {" ", "_"} THEN "-" ELSE c), "", [i \in 1..Len(s) |-> i])
TMVals(m, stats, suffix) ==
  IF m.labels = <<>> THEN [c \in {k \o "." \o m.name \o suffix : k \in DOMAIN stats} |->
                             stats[CHOOSE k \in DOMAIN stats : k \o "." \o m.name \o suffix = c]]
  ELSE LET ks == (DOMAIN stats) \X (DOMAIN m.labels)
           nm(k) == k[1] \o "." \o Dash(m.labels[k[2]]) \o suffix
       IN [c \in {nm(k) : k \in ks} |-> LET k == CHOOSE k \in ks : nm(k) = c IN stats[k[1]][k[2]]]
TimemoryErr(C, t, x) ==
  IF x.exc # "" THEN {"timemory.raised"} ELSE
  LET ms == SelectSeq(x.a.doc.metrics, LAMBDA m: m.sel)
      I == UNION {UNION {{<<a, b, i>> : i \in {j \in DOMAIN ms[a].parts[b].ents : ~ms[a].parts[b].ents[j].dummy}}
                          : b \in DOMAIN ms[a].parts} : a \in DOMAIN ms}
      ent(k) == ms[k[1]].parts[k[2]].ents[k[3]]
      path == [k \in I |-> TMPath(ms[k[1]].parts[k[2]].ents, k[3])]
      key == [k \in I |-> Join(path[k], "|")]
      rank(k) == ms[k[1]].parts[k[2]].rank
      ranks == \E k \in I : rank(k) # -1
      threads == \E k \in I : ent(k).tid # Zero
      ix(k) == (IF ranks THEN <<IntV(rank(k))>> ELSE <<>>) \o (IF threads THEN <<ent(k).tid>> ELSE <<>>)
      ixn == (IF ranks THEN <<"rank">> ELSE <<>>) \o (IF threads THEN <<"thread">> ELSE <<>>)
      vals(k) == LET m == ms[k[1]] IN TMVals(m, ent(k).exc, "") @@ TMVals(m, ent(k).inc, " (inc)")
      V == [k \in I |-> vals(k)]
      exc == UNION {DOMAIN TMVals(ms[k[1]], ent(k).exc, "") : k \in I}
      inc == UNION {DOMAIN TMVals(ms[k[1]], ent(k).inc, " (inc)") : k \in I}
      keys == {key[k] : k \in I}
      one(u) == CHOOSE k \in I : key[k] = u
      up(k) == Join(SubSeq(path[k], 1, Len(path[k]) - 1), "|")
      stats == SetToSeq(exc \cup inc)
      cols == <<"name", "type", "file">> \o stats
      recorded == {<<key[k], ix(k)>> : k \in I}
      multi == ixn # <<>>
      \* the last index level is filled up with rows of zeros
      rows0 == IF ~multi THEN recorded
               ELSE LET n == Len(ixn) IN
                    {<<r[1], SubSeq(r[2], 1, n - 1) \o <<q[2][n]>>>> : r \in recorded, q \in recorded}
      at(r) == {k \in I : <<key[k], ix(k)>> = r}
      cellOf(r, c) == LET S == {k \in at(r) : c \in DOMAIN V[k]} IN
                      IF S = {} THEN (IF multi THEN Zero ELSE NaN) ELSE V[CHOOSE k \in S : TRUE][c]
      rs == SetToSeq(rows0)
      E == Model([fr |-> [u \in keys |-> FrameOf(C, {<<StrV(C, "name"), StrV(C, TMName(ent(one(u))))>>,
                                                     <<StrV(C, "type"), StrV(C, "region")>>})],
                  ch |-> [u \in keys |-> SetToSeq({v \in keys : Len(path[one(v)]) > 1 /\ up(one(v)) = u})],
                  roots |-> SetToSeq({u \in keys : Len(path[one(u)]) = 1}),
                  cols |-> cols, ixn |-> ixn, exc |-> SetToSeq(exc), inc |-> SetToSeq(inc),
                  rows |-> [i \in DOMAIN rs |-> [u |-> rs[i][1], ix |-> rs[i][2],
                     c |-> <<StrV(C, TMName(ent(one(rs[i][1])))), StrV(C, "region"), StrV(C, TMFile(ent(one(rs[i][1]))))>>
                           \o [j \in DOMAIN stats |-> cellOf(rs[i], stats[j])]]]])
      extra == {"line", "pid", "count"} \cup (IF multi THEN {} ELSE {"thread"})
      F == [t EXCEPT !.cols = SelectSeq(@, LAMBDA c: c \notin extra),
                     !.rows = [i \in DOMAIN @ |-> [@[i] EXCEPT !.c =
                        LET s == SelectSeq([j \in DOMAIN t.cols |-> j], LAMBDA j: t.cols[j] \notin extra)
                        IN [j \in DOMAIN s |-> t.rows[i].c[s[j]]]]]]
  IN (IF ~CellsOK(t) THEN WFErr(t) ELSE SourceErr(E, F, "timemory")) \cup OrderErr(t, "timemory")
     \cup Guard("timemory.columns", CellsOK(t) /\ extra \subseteq Range(t.cols),
       Guard("timemory.sound", Sound(F) /\ Acyclic(F),
        LET maps == IsoMaps(E, F) IN
        Chk("timemory.attributes", maps # {} => \E m \in maps : \A k \in I :
           <<m[key[k]], ix(k)>> \in Keys(t) =>
           LET r == RowAt(t, <<m[key[k]], ix(k)>>)  e == ent(k) IN
           /\ CellOf(t, r, "line") = StrV(C, TMLine(e))
           /\ CellOf(t, r, "pid") = e.pid /\ CellOf(t, r, "count") = e.laps
           /\ multi \/ CellOf(t, r, "thread") = e.tid)))
     \cup Chk("timemory.default", CASE "sum.wall_clock" \in exc -> t.dm = "sum.wall_clock"
                                    [] "sum.cpu_clock" \in exc -> t.dm = "sum.cpu_clock"
                                    [] OTHER -> TRUE)
(* ----------------------------------- SpotDB ------------------------------------ *)
(* doc.recs: the region profile, [path, vals]; vals: [k metric, raw the value, num   *)
(* the number it stands for]; doc.attrs: metric -> [type, alias]; doc.md: metadata   *)
SpotCol(doc, k) == (IF k \in DOMAIN doc.attrs /\ doc.attrs[k].alias # "" THEN doc.attrs[k].alias ELSE k)
                   \o (IF HasSub(k, "inclusive") THEN " (inc)" ELSE "")
SpotVal(doc, v) == IF v.k \in DOMAIN doc.attrs /\ doc.attrs[v.k].type \in {"double", "int", "uint"} THEN v.num ELSE v.raw
SpotKey(p) == "r" \o Join(p, "/")
SpotErr(C, t, x) ==
  IF x.exc # "" THEN {"spot.raised"} ELSE
  LET doc == x.a.doc
      recs == SelectSeq(doc.recs, LAMBDA r: r.path # <<"">>)
      paths == UNION {{SubSeq(recs[i].path, 1, n) : n \in 1..Len(recs[i].path)} : i \in DOMAIN recs}
      keys == {SpotKey(p) : p \in paths}
      of == [k \in keys |-> CHOOSE p \in paths : SpotKey(p) = k]
      mets == SetToSeq({SpotCol(doc, recs[i].vals[j].k) : <<i, j>> \in UNION {{i} \X DOMAIN recs[i].vals : i \in DOMAIN recs}})
      val(r, c) == LET S == {j \in DOMAIN r.vals : SpotCol(doc, r.vals[j].k) = c} IN
                   IF S = {} THEN NaN ELSE SpotVal(doc, r.vals[CHOOSE j \in S : TRUE])
      E == Model([fr |-> [k \in keys |-> FrameOf(C, {<<StrV(C, "name"), StrV(C, of[k][Len(of[k])])>>})],
                  ch |-> [k \in keys |-> SetToSeq({l \in keys : Len(of[l]) = Len(of[k]) + 1 /\ SubSeq(of[l], 1, Len(of[k])) = of[k]})],
                  roots |-> SetToSeq({k \in keys : Len(of[k]) = 1}),
                  cols |-> <<"name">> \o mets, ixn |-> <<>>,
                  exc |-> SelectSeq(mets, LAMBDA c: ~HasSub(c, "(inc)")), inc |-> SelectSeq(mets, LAMBDA c: HasSub(c, "(inc)")),
                  rows |-> [i \in DOMAIN recs |-> [u |-> SpotKey(recs[i].path), ix |-> <<>>,
                            c |-> <<StrV(C, recs[i].path[Len(recs[i].path)])>> \o [j \in DOMAIN mets |-> val(recs[i], mets[j])]]]])
  IN Chk("spot.runs", x.a.runs = x.a.want)
     \cup SourceErr(E, t, "spot") \cup Guard("spot.sound", Sound(t), Chk("spot.numbered", Numbered(t, FALSE)))
     \cup Chk("spot.metadata", t.md = doc.md)
     \cup Chk("spot.default", CASE x.a.dm \in Range(t.cols) -> t.dm = x.a.dm
                                [] t.inc # <<>> -> t.dm \in Range(t.inc)
                                [] OTHER -> t.dm \in Range(t.exc))
\* malformed arguments are refused
FromBadErr(x) == Chk("from.refused", x.exc = x.a.want)
=============================================================================
