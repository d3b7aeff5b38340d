--------------------------------- MODULE Keys ---------------------------------
(* Frames and nodes as keys: a frame is the set of its attributes (keyword       *)
(* arguments override the dictionary; a missing type counts as "None"); frames   *)
(* are ordered by their sorted attributes; nodes compare and hash by their id.    *)
EXTENDS Sources

PairKey(p) == p[1][4]
FramePairs(C, d, k) ==
  LET K == Range(k)
      S == K \cup {p \in Range(d) : \A q \in K : PairKey(q) # PairKey(p)}
  IN FrameOf(C, S)
\* the indices 1..n in stable order by Lt
StableSort(n, Lt(_, _)) == SetToSortSeq(1..n, LAMBDA i, j: Lt(i, j) \/ (~Lt(j, i) /\ i < j))
Matrix(n, R(_, _)) == [i \in 1..n |-> [j \in 1..n |-> R(i, j)]]
Comparisons(out, n, Eq(_, _), Lt(_, _), ordered) ==
  UNION {Chk("eq", out.eq = Matrix(n, Eq)),
         Chk("ne", out.ne = Matrix(n, LAMBDA i, j: ~Eq(i, j))),
         Chk("hash", \A i, j \in 1..n : Eq(i, j) => out.hash[i][j]),
         Chk("set", out.n = Cardinality({{j \in 1..n : Eq(i, j)} : i \in 1..n})),
         IF ~ordered THEN {} ELSE UNION {
           Chk("lt", out.lt = Matrix(n, Lt)),
           Chk("gt", out.gt = Matrix(n, LAMBDA i, j: Lt(j, i))),
           Chk("le", out.le = Matrix(n, LAMBDA i, j: Lt(i, j) \/ Eq(i, j))),
           Chk("ge", out.ge = Matrix(n, LAMBDA i, j: Lt(j, i) \/ Eq(i, j))),
           Chk("sorted", out.sorted = StableSort(n, Lt))}}
Text(v) == IF v[1] = 4 THEN v[4] ELSE IF v = None THEN "None" ELSE ToString(v[2])
FrameText(f) == "{" \o Join([i \in DOMAIN f |-> "'" \o f[i][1][4] \o "': '" \o Text(f[i][2]) \o "'"], ", ") \o "}"
FramesErr(C, x) ==
  IF x.a.fs = <<>> THEN Chk("frame.empty", x.exc = "ValueError")
  ELSE IF x.exc # "" THEN {"frame.raised"} ELSE
  LET n == Len(x.a.fs)  o == x.out
      f == [i \in 1..n |-> FramePairs(C, x.a.fs[i].d, x.a.fs[i].k)]
      names == x.a.names
      at(i) == [j \in DOMAIN names |-> FrameAttr(f[i], names[j])]
  IN {"frame." \o e : e \in Comparisons(o, n, LAMBDA i, j: f[i] = f[j], LAMBDA i, j: FrameLt(f[i], f[j]), x.a.order)}
     \cup UNION {Chk("frame.attrs", o.attrs = f), Chk("frame.copy", o.copies = f /\ o.copyeq),
                 Chk("frame.independent", o.after = f),
                 Chk("frame.values", \A i \in 1..n : o.values[i] = at(i) /\ o.get[i] = at(i) /\ o.one[i] = at(i)),
                 Chk("frame.str", \A i \in 1..n : o.str[i] = FrameText(f[i]) /\ o.repr[i] = "Frame(" \o o.str[i] \o ")")}
NodesErr(C, x) ==
  IF x.exc # "" THEN {"node.raised"} ELSE
  LET n == Len(x.a.ids)  o == x.out  k == x.a.ids IN
  {"node." \o e : e \in Comparisons(o, n, LAMBDA i, j: k[i] = k[j], LAMBDA i, j: k[i] < k[j], TRUE)}
  \cup UNION {Chk("node.foreign", ~o.foreign), Chk("node.unordered", o.unordered = "TypeError"),
              Chk("node.copy", o.copy = [i \in 1..n |-> FramePairs(C, x.a.fs[i].d, x.a.fs[i].k)] /\ o.bare),
              Chk("node.str", \A i \in 1..n : o.str[i] = FrameText(FramePairs(C, x.a.fs[i].d, x.a.fs[i].k)))}
=============================================================================
