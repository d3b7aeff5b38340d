------------------------------- MODULE Render --------------------------------
(* Text and literal renderings of a graphframe: tree(), to_dot(),              *)
(* to_flamegraph(), to_literal().  The specification generates the expected    *)
(* text; the harness only splits the produced text into lines (tree,           *)
(* flamegraph) or statements (dot).                                            *)
EXTENDS Ops

RECURSIVE Pow10(_)
Pow10(p) == IF p = 0 THEN 1 ELSE 10 * Pow10(p - 1)
RECURSIVE Pad(_, _)
Pad(t, n) == IF Len(t) >= n THEN t ELSE Pad("0" \o t, n)
\* n/d rounded half to even, n >= 0
RoundDiv(n, d) == LET q == n \div d   r == n % d
                  IN IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
\* a number with p digits after the point
Fmt(v0, p) ==
  LET v == AsNum(v0) IN
  CASE IsNaN(v) -> "nan" [] v = Inf -> "inf" [] v = NegInf -> "-inf"
    [] OTHER -> LET n == RoundDiv(Abs(v[2]) * Pow10(p), v[3])
                IN (IF v[2] < 0 THEN "-" ELSE "") \o
                   IF p = 0 THEN ToString(n)
                   ELSE ToString(n \div Pow10(p)) \o "." \o Pad(ToString(n % Pow10(p)), p)
\* round() to an integer, half to even
RoundInt(v0) == LET v == AsNum(v0)   n == RoundDiv(Abs(v[2]), v[3])
                IN IF v[2] < 0 /\ n > 0 THEN "-" \o ToString(n) ELSE ToString(n)
\* str() of a cell; whole numbers are integers here
Text(v) == CASE IsStr(v) -> v[4] [] IsNum(v) -> ToString(v[2]) [] v = None -> "None"
             [] IsNaN(v) -> "nan" [] IsBool(v) -> IF v[2] = 1 THEN "True" ELSE "False" [] OTHER -> v[4]

SelIx(s, x) == [i \in DOMAIN s.ixn |-> IF s.ixn[i] = "rank" THEN x.a.rank ELSE x.a.thread]
SelCell(s, x, u, c) == CellOf(s, RowAt(s, <<u, SelIx(s, x)>>), c)

(* --------------------------------- tree ---------------------------------- *)
ByNid(s, S) == SetToSortSeq(S, LAMBDA a, b: s.nodes[a].nid < s.nodes[b].nid)
Shorten(t) == IF Len(t) > 39 THEN SubSeq(t, 1, 18) \o "..." \o SubSeq(t, Len(t) - 17, Len(t)) ELSE t
(* The palettes, as 256-colour numbers from the highest to the lowest bucket.    *)
ColorMaps ==
  [RdYlGn |-> <<196, 208, 220, 46, 34, 22>>, BrBG |-> <<94, 179, 222, 116, 37, 23>>,
   PiYG |-> <<162, 176, 219, 149, 70, 22>>, PRGn |-> <<90, 140, 183, 151, 70, 22>>,
   PuOr |-> <<130, 208, 220, 189, 104, 57>>, RdBu |-> <<124, 209, 224, 153, 75, 25>>,
   RdGy |-> <<124, 209, 223, 251, 244, 238>>, RdYlBu |-> <<196, 208, 220, 153, 68, 24>>,
   Spectral |-> <<196, 208, 220, 191, 114, 26>>]
Styles(cm) == [i \in DOMAIN cm |-> "38;5;" \o ToString(cm[i])]
(* A line is a sequence of runs <<style, text>>; without colours every style is  *)
(* "" and the line is the concatenation of the texts.                            *)
RunText(rs) == FoldLeft(LAMBDA t, r: t \o r[2], "", rs)
MergeRuns(rs) ==
  FoldLeft(LAMBDA acc, r:
             IF r[2] = "" THEN acc
             ELSE IF acc # <<>> /\ acc[Len(acc)][1] = r[1]
                  THEN [acc EXCEPT ![Len(acc)] = <<r[1], @[2] \o r[2]>>]
                  ELSE Append(acc, r), <<>>, rs)
(* colours: each metric by where it lies between the smallest and the largest   *)
(* finite value shown for the rank (or the given limits)                        *)
Bucket(p) ==
  CASE RealLt(Rat(9, 10), p) -> 1 [] RealLt(Rat(7, 10), p) -> 2 [] RealLt(Rat(1, 2), p) -> 3
    [] RealLt(Rat(3, 10), p) -> 4 [] RealLt(Rat(1, 10), p) -> 5 [] RealLt(Zero, p) \/ p = Zero -> 6 [] OTHER -> 7
Finite(s, x) ==
  LET rk == {i \in DOMAIN s.ixn : s.ixn[i] = "rank"}
      rs == SelectSeq(s.rows, LAMBDA r: rk = {} \/ r.ix[CHOOSE i \in rk : TRUE] = x.a.rank)
  IN SelectSeq([i \in DOMAIN rs |-> CellOf(s, rs[i], x.a.metrics[1])], IsNum)
Hi(s, x) == IF x.a.max # None THEN x.a.max ELSE MaxSkip(Finite(s, x))
Lo(s, x) == IF x.a.min # None THEN x.a.min ELSE MinSkip(Finite(s, x))
Palette(x) == LET p == Styles(ColorMaps[x.a.cmap]) IN IF x.a.invert THEN Reverse(p) ELSE p
MetricStyle(pal, hi, lo, v) ==
  LET rg == Sub(hi, lo)
      b == Bucket(IF rg = Zero THEN v ELSE Div(Sub(v, lo), rg))
  IN IF b = 7 THEN "34" ELSE pal[b]
\* the colour of an annotation: the given one, or the palette in the order of the
\* texts (patterns: in the order they appear)
AnnStyle(s, x, v) ==
  IF x.a.apal.k = "map" THEN x.a.apal.vals[CHOOSE i \in DOMAIN x.a.apal.keys : x.a.apal.keys[i] = v[4]]
  ELSE LET p == IF x.a.apal.k = "name" THEN Styles(ColorMaps[x.a.apal.name]) ELSE x.a.apal.list
           all == [i \in DOMAIN s.rows |-> CellOf(s, s.rows[i], x.a.annot)]
           k == IF x.a.pattern
                THEN LET f == Min({i \in DOMAIN all : all[i] = v})
                     IN Cardinality({all[i] : i \in 1..(f - 1)})
                ELSE Cardinality({c \in Range(all) : ValLt(c, v)})
       IN p[(k % Len(p)) + 1]
Inside(t, p) == \E i \in 0..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p
NameStyle(x, name) == IF x.a.color /\ x.a.hl /\ ~Inside(name, "<unknown procedure>")
                         /\ ~Inside(name, "<unknown file>") THEN "48;5;246+38;5;232" ELSE ""
TreeRuns(s, x, ms(_), e) ==
  LET u == e[1]
      st(t) == IF x.a.color THEN t ELSE ""
      m(i) == Fmt(SelCell(s, x, u, x.a.metrics[i]), x.a.prec)
      name == SelCell(s, x, u, x.a.name)[4]
      pals == x.a.color /\ x.a.apal.k # "none"
      av == SelCell(s, x, u, x.a.annot)
      ann == IF x.a.annot = "" THEN <<>>
             ELSE IF x.a.pattern
                  THEN IF pals /\ av[4] = "none" THEN <<>>
                       ELSE << <<"", " ">>, <<IF pals THEN AnnStyle(s, x, av) ELSE "", x.a.sym[av[4]]>> >>
             ELSE << <<"", " [">>, <<IF pals THEN AnnStyle(s, x, av) ELSE "", Text(av)>>, <<"", "]">> >>
      mn == SelCell(s, x, u, "_missing_node")
  IN << <<"", e[2]>>, <<ms(SelCell(s, x, u, x.a.metrics[1])), m(1)>> >>
     \o (IF Len(x.a.metrics) > 1 THEN << <<"", " ">>, <<st("2"), m(2)>> >> ELSE <<>>)
     \o ann
     \o << <<"", " ">>, <<NameStyle(x, name), IF x.a.expand THEN name ELSE Shorten(name)>> >>
     \o (IF ~HasCol(s, "_missing_node") THEN <<>>
         ELSE CASE mn = IntV(1) -> << <<"", " ">>, <<st("38;5;160"), x.a.sym.left>> >>
                [] mn = IntV(2) -> << <<"", " ">>, <<st("38;5;28"), x.a.sym.right>> >>
                [] OTHER -> <<>>)
     \o (IF HasCol(s, x.a.ctx) THEN << <<"", " ">>, <<st("2"), Text(SelCell(s, x, u, x.a.ctx))>> >> ELSE <<>>)
RECURSIVE TreeR(_, _, _, _, _)
\* the lines in order, each a node and its indentation
\* todo: sequence of <<node, indentation of its line, indentation of its children>>
TreeR(s, x, todo, seen, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET h == Head(todo)   u == h[1] IN
       IF s.nodes[u].dep >= x.a.depth THEN TreeR(s, x, Tail(todo), seen, acc)
       ELSE LET ks == IF u \in seen THEN <<>> ELSE ByNid(s, Kids(s, u))
                kk == [i \in DOMAIN ks |->
                        IF i < Len(ks) THEN <<ks[i], h[3] \o x.a.sym.mid, h[3] \o x.a.sym.bar>>
                        ELSE <<ks[i], h[3] \o x.a.sym.last, h[3] \o "   ">>]
            IN TreeR(s, x, kk \o Tail(todo), seen \cup {u}, Append(acc, <<u, h[2]>>))
TreeOrder(s, x) ==
  LET r == ByNid(s, RootSet(s))
  IN TreeR(s, x, [i \in DOMAIN r |-> <<r[i], "", "">>], {}, <<>>)

(* the legend below a coloured tree                                              *)
\* a number with two digits; a float at a tie may be rounded either way
TwoDigits(v) == LET n == 100 * Abs(v[2])
                    sg == IF v[2] < 0 THEN -1 ELSE 1
                IN IF 2 * (n % v[3]) = v[3]
                   THEN {Fmt(Rat(sg * (n \div v[3]), 100), 2), Fmt(Rat(sg * ((n \div v[3]) + 1), 100), 2),
                         "-0.00", "0.00"} \ (IF n >= v[3] THEN {"-0.00", "0.00"} ELSE {})
                   ELSE {Fmt(v, 2)} \cup (IF v = Zero THEN {"-0.00"} ELSE {})
Bounds == << <<9, 10>>, <<7, 9>>, <<5, 7>>, <<3, 5>>, <<1, 3>>, <<0, 1>> >>
\* what the symbols of temporal patterns mean, and the ranges of their scores
Scores == <<"0.0", "0.2", "0.4", "0.6", "1.0">>
PatternLegend(x) ==
  LET pats == <<"constant", "phased", "dynamic", "sporadic">>
      p == CASE x.a.apal.k = "name" -> Styles(ColorMaps[x.a.apal.name])
             [] x.a.apal.k = "list" -> x.a.apal.list
             [] OTHER -> <<"">>
  IN << << <<"", "Temporal Pattern" \o
                 FoldLeft(LAMBDA t, k: t \o "   " \o x.a.sym[k] \o " " \o k, "", pats)>> >>,
        MergeRuns(<< <<"", "Temporal Score  ">> >>
                  \o [i \in 1..4 |-> <<p[(i % Len(p)) + 1], "   " \o Scores[i] \o " - " \o Scores[i + 1]>>]) >>
LegendErr(s, x, L, pal, hi, lo) ==
  LET rg == Sub(hi, lo)
      at(k) == Add(lo, Mul(Rat(k, 10), rg))
      head == {<< <<"4", "Legend">>, <<"", " (Metric: " \o x.a.metrics[1] \o " Min: " \o a \o " Max: " \o b \o ")">> >> :
                 a \in TwoDigits(lo), b \in TwoDigits(hi)}
      lab(i) == {<< <<pal[i], x.a.sym.block>>, <<"", a \o " - " \o b>> >> :
                   a \in TwoDigits(at(Bounds[i][1])), b \in TwoDigits(at(Bounds[i][2]))}
      key == MergeRuns(<< <<NameStyle(x, "name"), "name">>, <<"", " User code    ">>,
                          <<"38;5;160", x.a.sym.left>>, <<"", " Only in left graph    ">>,
                          <<"38;5;28", x.a.sym.right>>, <<"", " Only in right graph">> >>)
  IN UNION {Chk("tree.legend", Len(L) >= 10 /\ L[1] = <<>> /\ L[2] \in head /\ L[9] = <<>> /\ L[10] = key),
            Chk("tree.legendlabels", Len(L) >= 10 /\ \A i \in 1..6 : L[2 + i] \in lab(i)),
            Chk("tree.legendrest", IF x.a.pattern THEN Len(L) = 13 /\ L[11] = <<>> /\ SubSeq(L, 12, 13) = PatternLegend(x)
                                   ELSE Len(L) = 10)}

ShownMetrics(x) == IF Len(x.a.metrics) > 2 THEN SubSeq(x.a.metrics, 1, 2) ELSE x.a.metrics
TreeErr(s, x) ==
  LET shown == ShownMetrics(x) IN
  IF x.a.color /\ x.a.cmap \notin DOMAIN ColorMaps THEN Chk("tree.colormap", x.exc = "ValueError")
  ELSE IF \E i \in DOMAIN shown : ~HasCol(s, shown[i]) THEN Chk("tree.unknown", x.exc = "KeyError")
  ELSE IF x.exc # "" THEN {"tree.raised"}
  ELSE LET O == TreeOrder(s, x)
           has == x.a.color /\ Finite(s, x) # <<>>
           pal == IF x.a.color THEN Palette(x) ELSE <<>>
           hi == IF has THEN Hi(s, x) ELSE Zero
           lo == IF has THEN Lo(s, x) ELSE Zero
           ms(v) == IF has THEN MetricStyle(pal, hi, lo, v) ELSE ""
           R == TLCEval([i \in DOMAIN O |-> TreeRuns(s, x, ms, O[i])])
           E == [i \in DOMAIN R |-> RunText(R[i])]
           L == x.out.lines
           n == Len(L) - Len(E)
       IN UNION {Chk("tree.lines", n >= 0 /\ SubSeq(L, n + 1, Len(L)) = E),
                 Chk("tree.header", n = IF x.a.header THEN x.out.headlen ELSE 0),
                 IF ~has THEN {}
                 ELSE Chk("tree.colors", n < 0 \/ x.out.runs = [i \in DOMAIN R |-> MergeRuns(R[i])])
                      \cup LegendErr(s, x, x.out.legend, pal, hi, lo)}

(* ---------------------------------- dot ---------------------------------- *)
RECURSIVE SelReach(_, _, _, _)
SelReach(s, ok, S, fr) == IF fr = {} THEN S
  ELSE LET n == (UNION {Kids(s, u) : u \in fr} \cap ok) \ S IN SelReach(s, ok, S \cup n, n)
DotErr(s, x) ==
  IF x.exc # "" THEN {"dot.raised"} ELSE
  LET col == [i \in DOMAIN s.rows |-> CellOf(s, s.rows[i], x.a.metric)]
      lim == Mul(x.a.thr, MaxSkip(col))
      ok == {u \in Nodes(s) : RealCmp(">=", AsNum(SelCell(s, x, u, x.a.metric)), lim)}
      r0 == RootSet(s) \cap ok
      sel == SelReach(s, ok, r0, r0)
      en == {<<s.nodes[u].nid, Text(SelCell(s, x, u, x.a.name))>> : u \in sel}
      ee == {<<s.nodes[e[1]].nid, s.nodes[e[2]].nid>> : e \in {d \in Edges(s) : d[1] \in sel /\ d[2] \in sel}}
  IN UNION {Chk("dot.text", x.out.ok),
            Chk("dot.nodes", Range(x.out.nodes) = en /\ NoDup(x.out.nodes)),
            Chk("dot.edges", Range(x.out.edges) = ee /\ NoDup(x.out.edges))}

(* ------------------------------- flamegraph ------------------------------- *)
RECURSIVE JoinNames(_, _, _)
JoinNames(s, x, p) == IF Len(p) = 1 THEN Text(SelCell(s, x, p[1], x.a.name))
                      ELSE Text(SelCell(s, x, p[1], x.a.name)) \o "; " \o JoinNames(s, x, Tail(p))
FlameErr(s, x) ==
  IF x.exc # "" THEN {"flame.raised"} ELSE
  LET P == NodePaths(s)
      line(p) == JoinNames(s, x, p) \o " " \o RoundInt(SelCell(s, x, p[Len(p)], x.a.metric))
      exp == [p \in P |-> line(p)]
      cnt(t) == Cardinality({p \in P : exp[p] = t})
      L == x.out.lines
  IN Chk("flame.lines", /\ Len(L) = Cardinality(P)
                        /\ \A i \in DOMAIN L : Occurs(L, L[i]) = cnt(L[i]))

(* -------------------------------- to_literal ------------------------------- *)
ByFrame(s, q) ==
  LET S == DOMAIN q IN
  LET o == SetToSortSeq(S, LAMBDA i, j: IF Fr(s, q[i]) = Fr(s, q[j]) THEN i < j ELSE FrameLt(Fr(s, q[i]), Fr(s, q[j])))
  IN [i \in DOMAIN o |-> q[o[i]]]
RECURSIVE LitR(_, _, _, _)
LitR(s, todo, seen, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET u == Head(todo)[1]   d == Head(todo)[2]
           open == Kids(s, u) # {} /\ u \notin seen
           ks == IF open THEN ByFrame(s, s.nodes[u].ch) ELSE <<>>
       IN LitR(s, [i \in DOMAIN ks |-> <<ks[i], d + 1>>] \o Tail(todo), seen \cup {u},
               Append(acc, <<u, d, open>>))
LitFlat(s) == LET r == ByFrame(s, s.roots) IN LitR(s, [i \in DOMAIN r |-> <<r[i], 0>>], {}, <<>>)
LitOutErr(s, x) ==
  IF x.exc # "" THEN {"literal.raised"} ELSE
  LET E == LitFlat(s)   L == x.out.ents IN
  Guard("literal.shape", [i \in DOMAIN L |-> <<L[i].nid, L[i].d, L[i].open>>]
                         = [i \in DOMAIN E |-> <<s.nodes[E[i][1]].nid, E[i][2], E[i][3]>>],
   UNION {
    Chk("literal.names", \A i \in DOMAIN E : L[i].name = SelCell(s, x, E[i][1], x.a.name)),
    Chk("literal.frames", \A i \in DOMAIN E : L[i].f = Fr(s, E[i][1])),
    Chk("literal.metrics", \A i \in DOMAIN E :
         /\ DOMAIN L[i].m = Metrics(s)
         /\ \A c \in Metrics(s) : L[i].m[c] = Lit0(SelCell(s, x, E[i][1], c))),
    Chk("literal.attributes", \A i \in DOMAIN E :
         /\ DOMAIN L[i].a = Range(x.a.cats) \cap Range(s.cols)
         /\ \A c \in DOMAIN L[i].a : L[i].a[c] = SelCell(s, x, E[i][1], c))})
=============================================================================
