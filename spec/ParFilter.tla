----------------------------- MODULE ParFilter -------------------------------
(* GraphFrame.filter with several workers.  The rows are cut into one chunk per *)
(* worker; each worker evaluates the predicate on its chunk and puts its result *)
(* (or the exception) on a queue: a feeder writes it unit by unit into a pipe of *)
(* bounded capacity, one message at a time, and the worker only exits when its   *)
(* message is written.  The parent collects as many results as there are         *)
(* workers, joins them and concatenates.  Every schedule is explored; Join and   *)
(* Slots select designs which must not work (see the cfgs).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,      \* workers
          Rows,   \* rows
          Cap,    \* units the pipe holds
          Join,   \* "after" the results are collected, or "before"
          Slots   \* results are ordered "bypid", or by "arrival"
VARIABLES keep,   \* rows the predicate holds for
          bad,    \* rows on which it raises
          w,      \* worker -> "ready" "work" "put" "write" "exit"
          left,   \* worker -> units still to be written
          lock,   \* the worker whose message is being written, or 0
          pipe,   \* units in the pipe
          rd,     \* units of the current message the parent has read
          got,    \* workers in the order their messages arrived in the pipe
          n,      \* messages the parent has received
          ppc,    \* "start" "get" "join" "done"
          started \* workers started
vars == <<keep, bad, w, left, lock, pipe, rd, got, n, ppc, started>>

W == 1..N
R == 1..Rows
\* np.array_split: the first Rows % N chunks hold one row more
Size(p) == (Rows \div N) + (IF p <= Rows % N THEN 1 ELSE 0)
RECURSIVE First(_)
First(p) == IF p = 1 THEN 1 ELSE First(p - 1) + Size(p - 1)
Chunk(p) == First(p)..(First(p) + Size(p) - 1)
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE <<Min(s)>> \o Asc(s \ {Min(s)})
Ok(rows) == [rows |-> rows, err |-> 0]
Fails(row) == [rows |-> <<>>, err |-> row]
\* what a worker reports
Result(p) == IF Chunk(p) \cap bad # {} THEN Fails(Min(Chunk(p) \cap bad)) ELSE Ok(Asc(Chunk(p) \cap keep))
Units(p) == 1 + Len(Result(p).rows)
\* the sequential filter
Sequential == IF bad # {} THEN Fails(Min(bad)) ELSE Ok(Asc(keep))
\* what the parent makes of the results
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN Ok(<<>>)
             ELSE LET h == Result(Head(s))  t == Concat(Tail(s)) IN
                  IF h.err # 0 THEN h ELSE IF t.err # 0 THEN t ELSE Ok(h.rows \o t.rows)
Final == Concat(IF Slots = "bypid" THEN [p \in W |-> p] ELSE got)

Init == /\ keep \in SUBSET R /\ bad \in SUBSET R
        /\ w = [p \in W |-> "ready"] /\ left = [p \in W |-> 0]
        /\ lock = 0 /\ pipe = 0 /\ rd = 0 /\ got = <<>> /\ n = 0 /\ ppc = "start" /\ started = 0
Start == /\ ppc = "start"
         /\ IF started < N
            THEN /\ started' = started + 1 /\ w' = [w EXCEPT ![started + 1] = "work"] /\ UNCHANGED ppc
            ELSE /\ ppc' = (IF Join = "before" THEN "join" ELSE "get") /\ UNCHANGED <<started, w>>
         /\ UNCHANGED <<keep, bad, left, lock, pipe, rd, got, n>>
\* the worker finishes its chunk; its message waits for the lock of the pipe
Work(p) == /\ w[p] = "work" /\ w' = [w EXCEPT ![p] = "put"] /\ left' = [left EXCEPT ![p] = Units(p)]
           /\ UNCHANGED <<keep, bad, lock, pipe, rd, got, n, ppc, started>>
Acquire(p) == /\ w[p] = "put" /\ lock = 0
              /\ lock' = p /\ w' = [w EXCEPT ![p] = "write"] /\ got' = Append(got, p)
              /\ UNCHANGED <<keep, bad, left, pipe, rd, n, ppc, started>>
Write(p) == /\ w[p] = "write" /\ lock = p /\ pipe < Cap
            /\ pipe' = pipe + 1 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ IF left[p] = 1 THEN lock' = 0 /\ w' = [w EXCEPT ![p] = "exit"] ELSE UNCHANGED <<lock, w>>
            /\ UNCHANGED <<keep, bad, rd, got, n, ppc, started>>
Get == /\ ppc = "get" /\ n < N /\ pipe > 0
       /\ pipe' = pipe - 1
       /\ IF rd + 1 = Units(got[n + 1]) THEN rd' = 0 /\ n' = n + 1 ELSE rd' = rd + 1 /\ UNCHANGED n
       /\ UNCHANGED <<keep, bad, w, left, lock, got, ppc, started>>
Collected == /\ ppc = "get" /\ n = N
             /\ ppc' = (IF Join = "before" THEN "done" ELSE "join")
             /\ UNCHANGED <<keep, bad, w, left, lock, pipe, rd, got, n, started>>
JoinAll == /\ ppc = "join" /\ \A p \in W : w[p] = "exit"
           /\ ppc' = (IF Join = "before" THEN "get" ELSE "done")
           /\ UNCHANGED <<keep, bad, w, left, lock, pipe, rd, got, n, started>>
Done == ppc = "done" /\ UNCHANGED vars
Worker(p) == Work(p) \/ Acquire(p) \/ Write(p)
Parent == Start \/ Get \/ Collected \/ JoinAll
Next == Parent \/ (\E p \in W : Worker(p)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Parent) /\ \A p \in W : WF_vars(Worker(p))

TypeOK == /\ lock \in 0..N /\ pipe \in 0..Cap /\ n \in 0..N /\ started \in 0..N
          /\ \A p \in W : left[p] \in 0..(Rows + 1)
          /\ Len(got) >= n
\* one message at a time is in the pipe's tail, and every unit read was written
Framing == (lock # 0) => got[Len(got)] = lock
\* the chunks are a partition of the rows, in order
Partition == /\ UNION {Chunk(p) : p \in W} = R
             /\ \A p \in 1..(N - 1) : \A a \in Chunk(p), b \in Chunk(p + 1) : a < b
Correct == ppc = "done" => Final = Sequential
\* nothing is lost when the parent is done, and nothing stays in the pipe
Drained == ppc = "done" => n = N /\ pipe = 0 /\ \A p \in W : w[p] = "exit"
Terminates == <>(ppc = "done")
\* the schedules, as cases: in which order the workers report
Emit == (ppc = "done") => PrintT("CASE " \o ToJson(
          [n |-> N, rows |-> Rows, keep |-> keep, bad |-> bad, order |-> got]))
=============================================================================
