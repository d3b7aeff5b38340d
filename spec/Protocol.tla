------------------------------- MODULE Protocol ------------------------------
(* The profiler wrapper and the phase timer: their start/stop protocols.       *)
(* State (aux):                                                                  *)
(*  prof  : [id -> [on: recording?, cnt: what is recorded]]                      *)
(*  timer : [id -> [open: the open phase or "", done: names in order of first    *)
(*                  completion, lo, hi: bounds of each phase's time, n: how often*)
(*                  it was completed]]                                           *)
(*  files : [file name -> recorded counts]                                       *)
(*  nb    : the notebook and its visualizations (Notebook)                       *)
(*  vis   : the tree visualization (Vis)                                          *)
(* A count maps "f" to the calls of function f and "f>g" to those of g by f.     *)
EXTENDS Values, Notebook, Vis

Aux0 == [prof |-> [i \in {} |-> 0], timer |-> [i \in {} |-> 0], files |-> [i \in {} |-> 0], nb |-> Nb0, vis |-> Vis0,
         store |-> [i \in {} |-> 0]]
Upd(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
NoCalls == [i \in {} |-> 0]
Plus(a, b) == [i \in DOMAIN a \cup DOMAIN b |-> (IF i \in DOMAIN a THEN a[i] ELSE 0) + (IF i \in DOMAIN b THEN b[i] ELSE 0)]
\* the counts of a sequence of calls [f, by]
Calls(s) ==
  LET ks == {s[i].f : i \in DOMAIN s} \cup {s[i].by \o ">" \o s[i].f : i \in {j \in DOMAIN s : s[j].by # ""}}
  IN [k \in ks |-> Cardinality({i \in DOMAIN s : s[i].f = k \/ (s[i].by # "" /\ s[i].by \o ">" \o s[i].f = k)})]
RECURSIVE SumFiles(_, _)
SumFiles(aux, fs) == IF fs = <<>> THEN NoCalls ELSE Plus(aux.files[Head(fs)], SumFiles(aux, Tail(fs)))

ProfOf(aux, x) == aux.prof[x.a.id]
TimerOf(aux, x) == aux.timer[x.a.id]
\* the current open phase of a timer ends
Complete(t, lo, hi) ==
  IF t.open = "" THEN t
  ELSE [t EXCEPT !.open = "",
                 !.done = IF t.open \in Range(t.done) THEN t.done ELSE Append(t.done, t.open),
                 !.lo = Upd(@, t.open, lo), !.hi = Upd(@, t.open, hi),
                 !.n = Upd(@, t.open, IF t.open \in DOMAIN @ THEN @[t.open] + 1 ELSE 1)]
\* what a file written by the operation must contain
Written(aux, x) ==
  CASE x.op = "p.stop" -> ProfOf(aux, x).cnt
    [] x.op = "p.write" -> Plus(ProfOf(aux, x).cnt, SumFiles(aux, x.a.add))
Writes(x) == x.op = "p.stop" \/ (x.op = "p.write" /\ ~x.a.bad)
Protocols == {"p.new", "p.start", "p.stop", "p.reset", "p.call", "p.write",
              "t.new", "t.start", "t.end", "t.show"} \cup NbOps
ProtoNext(aux, x) ==
  CASE x.op = "p.new" -> [aux EXCEPT !.prof = Upd(@, x.a.id, [on |-> FALSE, cnt |-> NoCalls])]
    [] x.op = "p.start" -> [aux EXCEPT !.prof[x.a.id].on = TRUE]
    [] x.op = "p.stop" -> [aux EXCEPT !.prof[x.a.id].on = FALSE, !.files = x.out.files]
    [] x.op = "p.reset" -> IF ProfOf(aux, x).on THEN aux ELSE [aux EXCEPT !.prof[x.a.id].cnt = NoCalls]
    [] x.op = "p.write" -> [aux EXCEPT !.files = x.out.files]
    \* calls are recorded by the profilers that are on
    [] x.op = "p.call" -> [aux EXCEPT !.prof = [i \in DOMAIN @ |->
                             IF @[i].on THEN [@[i] EXCEPT !.cnt = Plus(@, Calls(x.a.calls))] ELSE @[i]]]
    [] x.op = "t.new" -> [aux EXCEPT !.timer = Upd(@, x.a.id, [open |-> "", done |-> <<>>, lo |-> NoCalls, hi |-> NoCalls, n |-> NoCalls])]
    [] x.op = "t.start" -> [aux EXCEPT !.timer[x.a.id] = [Complete(@, x.out.lo, x.out.hi) EXCEPT !.open = x.a.phase]]
    [] x.op = "t.end" -> [aux EXCEPT !.timer[x.a.id] = Complete(@, x.out.lo, x.out.hi)]
    [] x.op \in NbOps -> [aux EXCEPT !.nb = NbNext(@, x)]
    [] OTHER -> aux
FilesErr(aux, x) ==
  LET old == DOMAIN aux.files  now == DOMAIN x.out.files  nw == now \ old IN
  UNION {{c \in {"profile.overwritten"} : ~(old \subseteq now /\ \A f \in old \cap now : x.out.files[f] = aux.files[f])},
         IF ~Writes(x) THEN {c \in {"profile.unexpectedfile"} : nw # {}}
         ELSE IF Cardinality(nw) # 1 THEN {"profile.file"}
         ELSE LET f == CHOOSE f \in nw : TRUE  b == x.a.base IN
              UNION {{c \in {"profile.content"} : x.out.files[f] # Written(aux, x)},
                     {c \in {"profile.name"} : b \notin old /\ f # b}}}
ProtoErr(aux, x) ==
  CASE x.op = "p.start" -> {c \in {"profile.start"} : (x.out.exc # "") # ProfOf(aux, x).on}
    [] x.op = "p.reset" -> {c \in {"profile.reset"} : (x.out.exc # "") # ProfOf(aux, x).on}
    [] x.op = "p.stop" -> {c \in {"profile.stop"} : x.out.exc # ""} \cup FilesErr(aux, x)
    [] x.op = "p.write" -> {c \in {"profile.write"} : x.out.exc # (IF x.a.bad THEN "ValueError" ELSE "")} \cup FilesErr(aux, x)
    [] x.op = "t.start" -> {c \in {"timer.start"} : x.out.exc # ""}
    [] x.op = "t.end" -> {c \in {"timer.end"} : x.out.exc # (IF TimerOf(aux, x).open = "" THEN "AssertionError" ELSE "")}
    [] x.op = "t.show" ->
         {c \in {"timer.entries"} : x.out.names # TimerOf(aux, x).done}
         \cup {c \in {"timer.time"} : \E i \in DOMAIN x.out.names :
                 LET p == x.out.names[i]  t == TimerOf(aux, x) IN
                 /\ p \in DOMAIN t.n /\ t.n[p] = 1
                 /\ (x.out.ms[i] < t.lo[p] - 10 \/ x.out.ms[i] > t.hi[p] + 10)}
    [] x.op \in NbOps -> NbErr(aux.nb, x)
    [] OTHER -> {}
=============================================================================
