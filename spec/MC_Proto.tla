------------------------------ MODULE MC_Proto -------------------------------
(* All histories of one profiler, or of one timer, up to a bound: checks the   *)
(* protocol itself and emits the maximal histories as cases for the real code.  *)
EXTENDS Protocol, Json
CONSTANTS Kind, Depth
VARIABLES aux, hist
vars == <<aux, hist>>

Tree == <<[f |-> "f0", by |-> ""], [f |-> "f1", by |-> "f0"], [f |-> "f1", by |-> "f0"]>>
NewFile(n) == "file" \o ToString(n)
Ev(op, a, out) == [op |-> op, a |-> a, out |-> out]
\* the outcome an implementation following the protocol gives
Outcome(op) ==
  LET p == aux.prof["p"] IN
  CASE op = "start" -> Ev("p.start", [id |-> "p"], [exc |-> IF p.on THEN "RuntimeError" ELSE ""])
    [] op = "reset" -> Ev("p.reset", [id |-> "p"], [exc |-> IF p.on THEN "RuntimeError" ELSE ""])
    [] op = "stop" -> LET n == NewFile(Cardinality(DOMAIN aux.files)) IN
                      Ev("p.stop", [id |-> "p", base |-> NewFile(0)], [exc |-> "", files |-> Upd(aux.files, n, p.cnt)])
    [] op = "call" -> Ev("p.call", [calls |-> Tree], [exc |-> ""])
    [] op = "end" -> Ev("t.end", [id |-> "t"], [exc |-> IF aux.timer["t"].open = "" THEN "AssertionError" ELSE "", lo |-> 0, hi |-> 0])
    [] OTHER -> Ev("t.start", [id |-> "t", phase |-> op], [exc |-> "", lo |-> 0, hi |-> 0])
Ops == IF Kind = "profiler" THEN {"start", "stop", "reset", "call"} ELSE {"a", "b", "c", "end"}
\* stop is only used on a running profiler
Enabled(op) == Len(hist) < Depth /\ (op = "stop" => aux.prof["p"].on)
Init == /\ hist = <<>>
        /\ aux = ProtoNext(ProtoNext(Aux0, Ev("p.new", [id |-> "p"], <<>>)), Ev("t.new", [id |-> "t"], <<>>))
Next == \E op \in Ops : /\ Enabled(op)
                        /\ hist' = Append(hist, op)
                        /\ aux' = ProtoNext(aux, Outcome(op))
Spec == Init /\ [][Next]_vars

\* the specification accepts its own outcomes
Consistent == \A op \in Ops : Enabled(op) => ProtoErr(aux, Outcome(op)) = {}
\* one file per stop, and what a file holds never changes
Files == Cardinality(DOMAIN aux.files) = Cardinality({i \in DOMAIN hist : hist[i] = "stop"})
NeverLost == [][\A f \in DOMAIN aux.files : f \in DOMAIN aux'.files /\ aux'.files[f] = aux.files[f]]_vars
\* refused operations lose nothing
Refused == [][(aux.prof["p"].on /\ Len(hist') > 0 /\ hist'[Len(hist')] \in {"start", "reset"})
               => aux'.prof = aux.prof]_vars
\* what is recorded is the calls since the last effective reset while on
RECURSIVE Rec(_, _, _)
Rec(i, on, n) ==
  IF i > Len(hist) THEN n
  ELSE CASE hist[i] = "start" -> Rec(i + 1, TRUE, n)
         [] hist[i] = "stop" -> Rec(i + 1, FALSE, n)
         [] hist[i] = "reset" -> Rec(i + 1, on, IF on THEN n ELSE 0)
         [] OTHER -> Rec(i + 1, on, IF on THEN n + 1 ELSE n)
Recorded == LET c == aux.prof["p"].cnt IN
            Kind = "profiler" => (IF "f0" \in DOMAIN c THEN c["f0"] ELSE 0) = Rec(1, FALSE, 0)
Timers == LET t == aux.timer["t"] IN
          /\ Cardinality(Range(t.done)) = Len(t.done)
          /\ t.open = "" \/ Kind # "timer" \/ \E i \in DOMAIN hist : hist[i] = t.open
Emit == (Len(hist) = Depth) => PrintT("CASE " \o ToJson([kind |-> Kind, ops |-> hist]))
=============================================================================
