-------------------------------- MODULE Query --------------------------------
(* The call-path query language.                                              *)
(* A query pattern is a sequence of [q |-> "." or "*", p |-> set of nodes that *)
(* satisfy the predicate].  '+' is "." then "*" of the same predicate, an      *)
(* integer n is n times ".".                                                   *)
EXTENDS Ops

Expand(items) ==   \* items: [q |-> "." "*" "+" or "n", n |-> count, p |-> set]
  FlattenSeq([i \in DOMAIN items |->
     LET it == items[i] IN
     CASE it.q = "n" -> [j \in 1..it.n |-> [q |-> ".", p |-> it.p]]
       [] it.q = "+" -> << [q |-> ".", p |-> it.p], [q |-> "*", p |-> it.p] >>
       [] OTHER -> << [q |-> it.q, p |-> it.p] >>])

(* ---- the meaning of a pattern: nodes on some matching downward path ------- *)
(* state <<u, i>>: node u has been consumed by pattern element i               *)
Skippable(pat, i, j) == \A k \in (i + 1)..(j - 1) : pat[k].q = "*"   \* from i to j
StartStates(g, pat) == {s \in Nodes(g) \X DOMAIN pat :
                          s[1] \in pat[s[2]].p /\ Skippable(pat, 0, s[2])}
Succ(g, pat, s) ==
  {t \in Kids(g, s[1]) \X DOMAIN pat :
     /\ t[1] \in pat[t[2]].p
     /\ \/ t[2] = s[2] /\ pat[s[2]].q = "*"
        \/ t[2] > s[2] /\ Skippable(pat, s[2], t[2])}
RECURSIVE Fwd(_, _, _, _)
Fwd(g, pat, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET n == UNION {Succ(g, pat, s) : s \in fr} \ seen IN Fwd(g, pat, seen \cup n, n)
Accepting(pat, s) == Skippable(pat, s[2], Len(pat) + 1)
RECURSIVE Bwd(_, _, _, _)
Bwd(succ, rest, good, fr) ==
  LET n == {s \in rest : succ[s] \cap fr # {}}
  IN IF n = {} THEN good ELSE Bwd(succ, rest \ n, good \cup n, n)
Matched(g, pat) ==
  LET S == StartStates(g, pat)
      all == TLCEval(Fwd(g, pat, S, S))
      succ == TLCEval([s \in all |-> Succ(g, pat, s)])
      acc == TLCEval({s \in all : Accepting(pat, s)})
  IN {s[1] : s \in Bwd(succ, all \ acc, acc, acc)}

(* ---- the same by enumerating paths (used to check the automaton) ---------- *)
RECURSIVE DownPathsR(_, _, _)
DownPathsR(g, acc, fr) ==
  IF fr = {} THEN acc
  ELSE LET n == UNION { {Append(p, c) : c \in Kids(g, p[Len(p)])} : p \in fr }
       IN DownPathsR(g, acc \cup n, n)
DownPaths(g) == LET S == {<<u>> : u \in Nodes(g)} IN DownPathsR(g, S, S)
RECURSIVE PathMatches(_, _, _, _)
PathMatches(p, i, pat, j) ==    \* does p[i..] match pat[j..]?
  IF j > Len(pat) THEN i > Len(p)
  ELSE IF pat[j].q = "."
       THEN i <= Len(p) /\ p[i] \in pat[j].p /\ PathMatches(p, i + 1, pat, j + 1)
       ELSE \/ PathMatches(p, i, pat, j + 1)
            \/ i <= Len(p) /\ p[i] \in pat[j].p /\ PathMatches(p, i + 1, pat, j)
MatchedByPaths(g, pat) ==
  UNION {Range(p) : p \in {q \in DownPaths(g) : PathMatches(q, 1, pat, 1)}}

(* ------------------------- regular expressions ----------------------------- *)
(* strings are sequences of character codes; a regex is an AST                  *)
(*  [r |-> "eps"] [r |-> "chr", c] [r |-> "any"] [r |-> "cls", cs, neg]         *)
(*  [r |-> "cat"/"alt", a, b]  [r |-> "star"/"plus"/"opt", a]                    *)
(* Ends(r, s, i): the positions at which a match of r starting at i can end     *)
RECURSIVE Ends(_, _, _)
RECURSIVE StarEnds(_, _, _, _)
Ends(r, s, i) ==
  CASE r.r = "eps" -> {i}
    [] r.r = "chr" -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.r = "any" -> IF i <= Len(s) /\ s[i] # 10 THEN {i + 1} ELSE {}
    [] r.r = "cls" -> IF i <= Len(s) /\ (s[i] \in Range(r.cs)) # r.neg THEN {i + 1} ELSE {}
    [] r.r = "cat" -> UNION {Ends(r.b, s, j) : j \in Ends(r.a, s, i)}
    [] r.r = "alt" -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
    [] r.r = "opt" -> {i} \cup Ends(r.a, s, i)
    [] r.r = "star" -> StarEnds(r.a, s, {i}, {i})
    [] r.r = "plus" -> LET f == Ends(r.a, s, i) IN StarEnds(r.a, s, f, f)
StarEnds(r, s, seen, fr) ==
  IF fr = {} THEN seen
  ELSE LET n == UNION {Ends(r, s, j) : j \in fr} \ seen IN StarEnds(r, s, seen \cup n, n)
FullMatch(r, s) == (Len(s) + 1) \in Ends(r, s, 1)
PrefixMatch(r, s) == Ends(r, s, 1) # {}
StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
StrContains(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

(* ------------------- predicate results: T, F or an error ------------------- *)
\* "T" / "F" / "E"
B(b) == IF b THEN "T" ELSE "F"

(* --- Object dialect ---------------------------------------------------------*)
(* one entry value v : [t |-> "num", v] exact number                             *)
(*   [t |-> "cmp", op, v] comparison string   [t |-> "re", re] regex string       *)
(*   (a comparison string applied to a string attribute is read as a regex, so    *)
(*    it carries `re' too)                                                        *)
ObjNum(v, x) ==
  CASE v.t = "num" -> B(RealEq(x, v.v))
    [] v.t = "cmp" ->
         IF IsNaN(x) /\ IsNaN(v.v) THEN "T" ELSE B(RealCmp(v.op, x, v.v))
    [] OTHER -> "E"
ObjStr(codes, v, x) ==
  CASE v.t = "num" -> "E"
    [] OTHER -> B(FullMatch(v.re, codes[x[4]]))
ObjCell(codes, v, x) == CASE IsStr(x) -> ObjStr(codes, v, x)
                          [] IsReal(x) -> ObjNum(v, x)
                          [] OTHER -> "E"
ObjEntry(codes, g, u, cell(_), has(_), key, v) ==
  CASE key = "depth" -> IF v.t = "num" /\ v.v = IntV(-1) THEN B(Kids(g, u) = {})
                        ELSE ObjNum(v, IntV(g.nodes[u].dep))
    [] key = "node_id" -> ObjNum(v, IntV(g.nodes[u].nid))
    [] ~has(key) -> "F"
    [] OTHER -> ObjCell(codes, v, cell(key))
\* entries in order, short-circuit: the first "F" or "E" decides
FirstNotT(s) == LET I == {i \in DOMAIN s : s[i] # "T"}
                IN IF I = {} THEN "T" ELSE s[Min(I)]

FlatEntries(pred) ==  \* pred: sequence of [key, vals]
  FlattenSeq([i \in DOMAIN pred |-> [j \in DOMAIN pred[i].vals |->
                 [key |-> pred[i].key, v |-> pred[i].vals[j]]]])
ObjPred(codes, gf, u, pred) ==
  LET rs == RowsOf(gf, u)
      r == rs[1]
      has(n) == HasCol(gf, n)
      cell(n) == CellOf(gf, r, n)
      fe == FlatEntries(pred)
  IN FirstNotT([i \in DOMAIN fe |-> ObjEntry(codes, gf, u, cell, has, fe[i].key, fe[i].v)])
\* multi-index: an entry is decided over the node's rows by any / all
Quant(mode, S) == IF "E" \in S THEN "E"
                  ELSE IF mode = "any" THEN B("T" \in S) ELSE B("F" \notin S)
ObjPredMI(codes, gf, u, pred, mode) ==
  LET rs == RowsOf(gf, u)
      has(n) == HasCol(gf, n)
      fe == FlatEntries(pred)
      ent(e) == IF e.key \in {"depth", "node_id"} \/ ~has(e.key)
                THEN ObjEntry(codes, gf, u, LAMBDA n: NaN, has, e.key, e.v)
                ELSE Quant(mode, {ObjCell(codes, e.v, CellOf(gf, rs[i], e.key)) : i \in DOMAIN rs})
  IN FirstNotT([i \in DOMAIN fe |-> ent(fe[i])])

(* --- String dialect --------------------------------------------------------- *)
(* a node's WHERE part is a sequence of                                          *)
(*   [conn |-> "and"/"or" (ignored for the first), neg, t, key, v, re]           *)
(*   t: "seq" "starts" "ends" "contains" "match" (strings)                       *)
(*      "eq" "lt" "gt" "le" "ge" "nan" "notnan" "inf" "notinf" (numbers)         *)
(*      "none" "notnone" "leaf" "notleaf"                                        *)
StrTests == {"seq", "starts", "ends", "contains", "match"}
NumTests == {"eq", "lt", "gt", "le", "ge", "nan", "notnan", "inf", "notinf"}
NumTest(t, x, v) ==
  CASE t = "eq" -> RealEq(x, v) [] t = "lt" -> RealLt(x, v) [] t = "gt" -> RealLt(v, x)
    [] t = "le" -> RealLt(x, v) \/ RealEq(x, v) [] t = "ge" -> RealLt(v, x) \/ RealEq(x, v)
    [] t = "nan" -> IsNaN(x) [] t = "notnan" -> ~IsNaN(x)
    [] t = "inf" -> IsInf(x) [] t = "notinf" -> ~IsInf(x)
StrTest(codes, t, x, c) ==
  CASE t = "seq" -> codes[x[4]] = codes[c.v[4]]
    [] t = "starts" -> StartsWith(codes[x[4]], codes[c.v[4]])
    [] t = "ends" -> EndsWith(codes[x[4]], codes[c.v[4]])
    [] t = "contains" -> StrContains(codes[x[4]], codes[c.v[4]])
    [] t = "match" -> PrefixMatch(c.re, codes[x[4]])
Builtin(key) == key \in {"depth", "node_id"}
\* type check of one condition: "T", "E" (ill typed) or "F" (attribute absent)
TypeOK(gf, c, x) ==
  CASE c.t \in {"none", "notnone", "leaf", "notleaf"} -> "T"
    [] Builtin(c.key) -> B(TRUE)
    [] ~HasCol(gf, c.key) -> "F"
    [] c.t \in StrTests -> IF IsStr(x) THEN "T" ELSE "E"
    [] OTHER -> IF IsReal(x) THEN "T" ELSE "E"
StrCond(codes, gf, u, c, x) ==     \* "T"/"F"; "F!" when the attribute is absent
  LET raw == CASE c.t = "leaf" -> B(Kids(gf, u) = {})
               [] c.t = "notleaf" -> B(Kids(gf, u) # {})
               [] Builtin(c.key) ->
                    LET n == IntV(IF c.key = "depth" THEN gf.nodes[u].dep ELSE gf.nodes[u].nid)
                    IN CASE c.t = "none" -> "F" [] c.t = "notnone" -> "T"
                         [] c.key = "depth" /\ c.t = "eq" /\ c.v = IntV(-1) -> B(Kids(gf, u) = {})
                         [] OTHER -> B(NumTest(c.t, n, c.v))
               [] ~HasCol(gf, c.key) -> "X"
               [] c.t = "none" -> B(x = None)
               [] c.t = "notnone" -> B(x # None)
               [] c.t \in StrTests -> B(StrTest(codes, c.t, x, c))
               [] OTHER -> B(NumTest(c.t, x, c.v))
  IN IF raw = "X" THEN "X" ELSE IF c.neg THEN B(raw = "F") ELSE raw
\* and binds tighter than or; evaluated left to right; an absent attribute
\* met during evaluation makes the whole clause false
RECURSIVE EvalOr(_, _, _)
EvalOr(rs, cs, i) ==
  \* evaluate the and-group starting at i; its end is before the next "or"
  LET ends == {j \in (i + 1)..Len(cs) : cs[j].conn = "or"}
      e == IF ends = {} THEN Len(cs) ELSE Min(ends) - 1
      grp == FirstNotT(SubSeq(rs, i, e))
  IN CASE grp = "T" -> "T" [] grp = "X" -> "F"
       [] OTHER -> IF e = Len(cs) THEN "F" ELSE EvalOr(rs, cs, e + 1)
StrPred(codes, gf, u, conds) ==
  IF conds = <<>> THEN "T" ELSE
  LET r == RowsOf(gf, u)[1]
      x(c) == IF c.t \in {"leaf", "notleaf"} \/ Builtin(c.key) \/ ~HasCol(gf, c.key) THEN NaN
              ELSE CellOf(gf, r, c.key)
      ty == FirstNotT([i \in DOMAIN conds |-> TypeOK(gf, conds[i], x(conds[i]))])
  IN IF ty # "T" THEN ty
     ELSE EvalOr([i \in DOMAIN conds |-> StrCond(codes, gf, u, conds[i], x(conds[i]))], conds, 1)

\* multi-index: every single comparison is quantified over the node's rows,
\* then negated / combined
StrCondMI(codes, gf, u, c, mode) ==
  LET rs == RowsOf(gf, u)
      pos == [c EXCEPT !.neg = FALSE]
      raw == IF c.t \in {"leaf", "notleaf"} \/ Builtin(c.key) \/ ~HasCol(gf, c.key)
             THEN StrCond(codes, gf, u, pos, NaN)
             ELSE Quant(mode, {StrCond(codes, gf, u, pos, CellOf(gf, rs[i], c.key)) : i \in DOMAIN rs})
  IN IF raw = "X" THEN "X" ELSE IF c.neg THEN B(raw = "F") ELSE raw
\* column types decide the type check of multi-indexed data
ColIsStr(gf, u, n) == \A i \in DOMAIN RowsOf(gf, u) : IsStr(CellOf(gf, RowsOf(gf, u)[i], n))
ColIsNum(gf, n) == \A i \in DOMAIN gf.rows : IsReal(CellOf(gf, gf.rows[i], n))
TypeOKMI(gf, u, c) ==
  CASE c.t \in {"none", "notnone", "leaf", "notleaf"} -> "T"
    [] Builtin(c.key) -> "T"
    [] ~HasCol(gf, c.key) -> "F"
    [] c.t \in StrTests -> IF ColIsStr(gf, u, c.key) THEN "T" ELSE "E"
    [] OTHER -> IF ColIsNum(gf, c.key) THEN "T" ELSE "E"
StrPredMI(codes, gf, u, conds, mode) ==
  IF conds = <<>> THEN "T" ELSE
  LET ty == FirstNotT([i \in DOMAIN conds |-> TypeOKMI(gf, u, conds[i])])
  IN IF ty # "T" THEN ty
     ELSE EvalOr([i \in DOMAIN conds |-> StrCondMI(codes, gf, u, conds[i], mode)], conds, 1)

(* ------------------------------- full queries ------------------------------ *)
(* AST of a query:                                                              *)
(*  [k |-> "pat", d |-> dialect, items |-> seq of [q, n, pred]]                  *)
(*     dialect "obj": pred as for ObjPred; "str": as for StrPred;                *)
(*             "base": pred is a row predicate AST (see Frames), no error        *)
(*  [k |-> "and"/"or"/"xor"/"not", subs |-> seq of queries]                      *)
PredOn(codes, gf, q, it, u) ==
  LET multi == gf.ixn # <<>> IN
  CASE q.d = "obj" -> IF it.pred = <<>> THEN "T"
                      ELSE IF multi THEN (IF q.mode = "off" THEN "M" ELSE ObjPredMI(codes, gf, u, it.pred, q.mode))
                      ELSE ObjPred(codes, gf, u, it.pred)
    [] q.d = "str" -> IF multi THEN StrPredMI(codes, gf, u, it.pred, q.mode)
                      ELSE StrPred(codes, gf, u, it.pred)
    [] q.d = "base" -> LET rs == RowsOf(gf, u) IN
                       IF multi /\ it.pred.k = "anyrow" THEN B(\E i \in DOMAIN rs : RowPred(gf, it.pred.p, rs[i]))
                       ELSE B(RowPred(gf, it.pred, rs[1]))
PatResults(codes, gf, q) ==
  TLCEval([i \in DOMAIN q.items |-> [u \in Nodes(gf) |-> PredOn(codes, gf, q, q.items[i], u)]])
RECURSIVE QErrs(_, _, _)
QErrs(codes, gf, q) ==       \* the kinds of error the evaluation meets
  IF q.k = "pat"
  THEN LET pr == PatResults(codes, gf, q)
       IN UNION { {pr[i][u] : u \in Nodes(gf)} : i \in DOMAIN q.items } \cap {"M", "E"}
  ELSE UNION {QErrs(codes, gf, q.subs[i]) : i \in DOMAIN q.subs}
XorAll(s) == LET all == UNION Range(s)
             IN {u \in all : Cardinality({i \in DOMAIN s : u \in s[i]}) % 2 = 1}
RECURSIVE QRes(_, _, _)
QRes(codes, gf, q) ==
  IF q.k = "pat"
  THEN LET pr == PatResults(codes, gf, q)
           items == TLCEval([i \in DOMAIN q.items |->
                      [q |-> q.items[i].q, n |-> q.items[i].n,
                       p |-> {u \in Nodes(gf) : pr[i][u] = "T"}]])
       IN TLCEval(Matched(gf, TLCEval(Expand(items))))
  ELSE LET rs == TLCEval([i \in DOMAIN q.subs |-> QRes(codes, gf, q.subs[i])])
       IN CASE q.k = "and" -> {u \in rs[1] : \A i \in DOMAIN rs : u \in rs[i]}
            [] q.k = "or" -> UNION Range(rs)
            [] q.k = "xor" -> XorAll(rs)
            [] q.k = "not" -> Nodes(gf) \ rs[1]

(* ---------------------------- query events ---------------------------------- *)
ErrNames(S) == (IF "M" \in S THEN {"MultiIndexModeMismatch"} ELSE {})
               \cup (IF "E" \in S THEN {"InvalidQueryFilter"} ELSE {})
QueryErr(ctx, s, x) ==
  LET E == QErrs(ctx.codes, s, x.a.q) IN
  IF E # {} THEN Chk("query.error", x.exc \in ErrNames(E))
  ELSE IF x.exc # "" THEN {"query.raised"}
  ELSE LET R == QRes(ctx.codes, s, x.a.q)
       IN UNION {Chk("query.missing", R \subseteq Range(x.out.nodes)),
                 Chk("query.extra", Range(x.out.nodes) \subseteq R),
                 Chk("query.nodup", NoDup(x.out.nodes))}
QFilterErr(ctx, s, t, x) ==
  LET E == QErrs(ctx.codes, s, x.a.q) IN
  IF E # {} THEN Chk("query.error", x.exc \in ErrNames(E))
  ELSE LET R == QRes(ctx.codes, s, x.a.q)
       IN FilteredErr(ctx, s, [s EXCEPT !.rows = SelectSeq(s.rows, LAMBDA r: r.u \in R)], t, x)
\* a query that may not be built: construction raises one of the documented errors
BadQueryErr(x) == Chk("query.accepted", x.exc \in Range(x.a.errs))
=============================================================================
