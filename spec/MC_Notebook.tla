------------------------------ MODULE MC_Notebook -----------------------------
(* The notebook as two processes: the kernel and the page, exchanging messages    *)
(* over two queues and working in any interleaving, while the user acts whenever   *)
(* both are idle.  Checks that they always come to rest, and that the state they    *)
(* rest in is the one the atomic specification (Notebook) requires; emits the       *)
(* user's histories as cases for the real code.  Guard selects how the end of a      *)
(* refresh is detected: "idle" (nothing is on its way any more), or "kernel" (the   *)
(* kernel has finished, its output may still be under way), which must not work.    *)
EXTENDS Notebook, Sequences, SequencesExt, FiniteSetsExt, Json
CONSTANTS Depth, Guard
VARIABLES nb,    \* the atomic specification
          k,     \* kernel: ns, watch, cells (as in nb)
          p,     \* page: js, click, sel (the selected cell), refresh
          kq,    \* requests to the kernel
          pq,    \* messages to the page
          hist,
          ops    \* the history with all arguments
vars == <<nb, k, p, kq, pq, hist, ops>>

\* the cells of the notebook and what they bind
Plan == (1 :> [var |-> "x", js |-> "u"]) @@ (2 :> [var |-> "x", js |-> "v"]) @@ (3 :> [var |-> "y", js |-> "v"])
B(c, ask) == [var |-> Plan[c].var, js |-> Plan[c].js, ask |-> ask, watch |-> ask, pc |-> "default",
              fc |-> IF Plan[c].js = "u" THEN "tag" ELSE "default"]
T(n) == "t" \o ToString(n)
UserOps(n) ==
  {[op |-> "nb.bind", a |-> [cell |-> c, b |-> B(c, ask)]] : c \in 1..3, ask \in BOOLEAN}
  \cup {[op |-> "nb.assign", a |-> [sets |-> (q :> StrV(T(n)))]] : q \in {"x", "y"}}
  \cup {[op |-> "nb.jsset", a |-> [js |-> j, click |-> c, t |-> T(n)]] : j \in {"u", "v"}, c \in {1, 2, 4}}
\* the kernel's part of running a binding cell
KBind(ks, b) ==
  LET n == IF b.var \in DOMAIN ks.ns THEN ks.ns ELSE Map1(ks.ns, b.var, NoneV)
      w == IF ~(b.ask /\ b.watch) THEN ks.watch
           ELSE Map1(ks.watch, b.var, [pc |-> b.pc, js |-> {b.js} \cup (IF b.var \in DOMAIN ks.watch THEN ks.watch[b.var].js ELSE {})])
  IN [ks EXCEPT !.ns = n, !.watch = w]
Init_(ks, b) == [m |-> "init", js |-> b.js, t |-> ToJs(b.pc, ks.ns[b.var]), p |-> b.var, two |-> b.ask /\ b.watch, fc |-> b.fc]
\* the page asks for what an assignment to p needs
Order(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Reqs(ps, q) == LET cs == Order(Bound(ps, q) \ {ps.click}) IN [i \in DOMAIN cs |-> [m |-> "run", c |-> cs[i]]]
Send(ks, q) == LET js == SetToSeq(ks.watch[q].js) IN
               [i \in DOMAIN js |-> [m |-> "assign", js |-> js[i], t |-> ToJs(ks.watch[q].pc, ks.ns[q]), p |-> q]]

Init == /\ nb = Nb0 /\ kq = <<>> /\ pq = <<>> /\ hist = <<>> /\ ops = <<>>
        /\ k = [ns |-> Nb0.ns, watch |-> Nb0.watch, cells |-> Nb0.cells]
        /\ p = [js |-> Nb0.js, click |-> 0, sel |-> 0, refresh |-> FALSE]
Idle == kq = <<>> /\ pq = <<>> /\ ~p.refresh
User(x) ==
  /\ Idle /\ Len(hist) < Depth
  /\ nb' = NbNext(nb, x)
  /\ hist' = Append(hist, x.op) /\ ops' = Append(ops, x)
  /\ CASE x.op = "nb.bind" ->
            /\ k' = [KBind(k, x.a.b) EXCEPT !.cells = Map1(@, x.a.cell, x.a.b)]
            /\ pq' = <<Init_(k', x.a.b)>> /\ kq' = <<>>
            /\ p' = [p EXCEPT !.sel = x.a.cell]
       [] x.op = "nb.assign" ->
            LET q == CHOOSE q \in DOMAIN x.a.sets : TRUE IN
            /\ k' = [k EXCEPT !.ns = Map1(@, q, x.a.sets[q])]
            /\ pq' = IF q \in DOMAIN k.watch THEN Send(k', q) ELSE <<>>
            /\ p' = [p EXCEPT !.sel = 0] /\ kq' = <<>>
       [] x.op = "nb.jsset" ->
            LET j == x.a.js
                old == j \in DOMAIN p.js
                p1 == [p EXCEPT !.click = x.a.click, !.js = Map1(@, j, [data |-> x.a.t, fc |-> IF old THEN p.js[j].fc ELSE "",
                                                                  two |-> IF old THEN p.js[j].two ELSE [i \in {} |-> 0]])]
                o == {q \in DOMAIN p1.js[j].two : x.a.click \in p1.js[j].two[q]}
                q == CHOOSE q \in o : TRUE
            IN /\ p' = [p1 EXCEPT !.refresh = o # {}]
               /\ kq' = IF o = {} THEN <<>> ELSE <<[m |-> "exec", q |-> q, v |-> FromJs(p1.js[j].fc, x.a.t)]>> \o Reqs(p1, q)
               /\ pq' = <<>> /\ k' = k
Kernel ==
  /\ kq # <<>>
  /\ LET r == Head(kq) IN
     IF r.m = "exec" THEN k' = [k EXCEPT !.ns = Map1(@, r.q, r.v)] /\ pq' = pq
     ELSE k' = KBind(k, k.cells[r.c]) /\ pq' = Append(pq, Init_(k', k.cells[r.c]))
  /\ kq' = Tail(kq)
  /\ UNCHANGED <<nb, p, hist, ops>>
Page ==
  /\ pq # <<>>
  /\ LET r == Head(pq) IN
     IF r.m = "assign"
     THEN LET two == p.js[r.js].two IN
          /\ p' = [p EXCEPT !.js[r.js].data = r.t, !.refresh = @ \/ DOMAIN two # {}]
          /\ kq' = IF DOMAIN two # {} THEN kq \o Reqs(p, r.p) ELSE kq
     ELSE /\ p' = [p EXCEPT !.js = Arrive([js |-> p.js], r.js, r.t, r.p, r.two, r.fc, p.sel, p.refresh).js]
          /\ kq' = kq
  /\ pq' = Tail(pq)
  /\ UNCHANGED <<nb, k, hist, ops>>
\* the page finds no cell running any more
Poll == /\ p.refresh /\ kq = <<>> /\ (Guard = "idle" => pq = <<>>)
        /\ p' = [p EXCEPT !.refresh = FALSE]
        /\ UNCHANGED <<nb, k, kq, pq, hist, ops>>
Next == (\E x \in UserOps(Len(hist)) : User(x)) \/ Kernel \/ Page \/ Poll
Spec == Init /\ [][Next]_vars /\ WF_vars(Kernel) /\ WF_vars(Page) /\ WF_vars(Poll)

\* at rest the two processes are where the specification says
Agrees == Idle => /\ k.ns = nb.ns /\ k.watch = nb.watch /\ p.js = nb.js
\* a watched variable that was assigned is the same on both sides
Prev == ops[Len(ops)]
Synced == Idle /\ ops # <<>> /\ Prev.op = "nb.assign" =>
            \A q \in DOMAIN Prev.a.sets \cap DOMAIN k.watch : \A j \in k.watch[q].js :
              p.js[j].data = ToJs(k.watch[q].pc, k.ns[q])
\* linked views: what the user sets in one view shows in the other cells' views
Linked == Idle /\ ops # <<>> /\ Prev.op = "nb.jsset" =>
            \A q \in DOMAIN p.js[Prev.a.js].two : Prev.a.click \in p.js[Prev.a.js].two[q] =>
              \A c \in Bound(p, q) \ {Prev.a.click} : p.js[Plan[c].js].data = ToJs("default", k.ns[q])
\* bindings are only made by the user's own cells
Owned == \A j \in DOMAIN p.js : \A q \in DOMAIN p.js[j].two : \A c \in p.js[j].two[q] : c \in 1..3 /\ Plan[c] = [var |-> q, js |-> j]
Rests == []<>Idle
Emit == (Idle /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson([ops |-> ops]))
=============================================================================
