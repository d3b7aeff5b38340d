------------------------------- MODULE Notebook ------------------------------
(* The binding of notebook variables to JavaScript variables of embedded        *)
(* visualizations (Roundtrip): two programs, one in the Python kernel and one in *)
(* the page, that keep each other's copies up to date.                           *)
(* State (nb):                                                                   *)
(*  ns    : notebook variable -> value [k, t]: None, a string, a number, or other *)
(*          data with its JSON text                                              *)
(*  watch : watched notebook variable -> [pc: converter, js: the variables bound] *)
(*  js    : JavaScript variable -> [data: text, fc: converter back, known: has it *)
(*          one, two: notebook variable -> cells bound to it]                     *)
(*  cells : cell -> the binding [var, ask, js, watch, pc, fc] its code makes      *)
(*  click : the cell last clicked                                                *)
(*  cache : web page files loaded so far -> what was in them                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nb0 == [ns |-> [i \in {} |-> 0], watch |-> [i \in {} |-> 0], js |-> [i \in {} |-> 0],
        cells |-> [i \in {} |-> 0], click |-> 0, cache |-> [i \in {} |-> 0]]
Map1(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
NoneV == [k |-> "none", t |-> ""]
StrV(t) == [k |-> "str", t |-> t]

(* ---- conversions ------------------------------------------------------------- *)
\* Python value -> text sent to the page
ToJs(pc, v) ==
  LET base == IF v.k = "none" THEN (IF pc = "default" THEN "{}" ELSE "None") ELSE v.t IN
  CASE pc = "default" -> base
    [] pc = "wrap" -> "<" \o base \o ">"
\* text of the page -> Python value
FromJs(fc, t) ==
  CASE fc = "default" -> StrV(t)
    [] fc = "tag" -> StrV(t \o "!")

(* ---- the page ------------------------------------------------------------------ *)
\* the cells bound to the notebook variable p, whichever JavaScript variable they use
Bound(nb, p) == UNION {IF p \in DOMAIN nb.js[j].two THEN nb.js[j].two[p] ELSE {} : j \in DOMAIN nb.js}
\* a value arrives from the kernel; in a refresh the bindings stay as they are
Arrive(nb, j, text, p, two, fc, cell, refresh) ==
  LET old == j \in DOMAIN nb.js
      tw == IF old THEN nb.js[j].two ELSE [i \in {} |-> 0]
      tw2 == IF two THEN Map1(tw, p, (IF p \in DOMAIN tw THEN tw[p] ELSE {}) \cup {cell})
             ELSE IF p \in DOMAIN tw THEN [tw EXCEPT ![p] = @ \ {cell}] ELSE tw
  IN IF refresh THEN [nb EXCEPT !.js[j].data = text]
     ELSE [nb EXCEPT !.js = Map1(@, j, [data |-> text, fc |-> fc, two |-> tw2])]

(* ---- the kernel ------------------------------------------------------------------ *)
Known(nb, p) == IF p \in DOMAIN nb.ns THEN nb ELSE [nb EXCEPT !.ns = Map1(@, p, NoneV)]
\* the code of a binding cell runs
Bind(nb0, cell, b, refresh) ==
  LET nb == Known(nb0, b.var)
      two == b.ask /\ b.watch
      w == IF ~two THEN nb.watch
           ELSE Map1(nb.watch, b.var, [pc |-> IF b.var \in DOMAIN nb.watch THEN nb.watch[b.var].pc ELSE b.pc,
                                       js |-> {b.js} \cup (IF b.var \in DOMAIN nb.watch THEN nb.watch[b.var].js ELSE {})])
  IN Arrive([nb EXCEPT !.watch = w], b.js, ToJs(b.pc, nb.ns[b.var]), b.var, two, b.fc, cell, refresh)
RECURSIVE Rerun(_, _)
Rerun(nb, cs) == IF cs = {} THEN nb
                 ELSE LET c == CHOOSE c \in cs : \A d \in cs : c <= d
                      IN Rerun(Bind(nb, c, nb.cells[c], TRUE), cs \ {c})
\* the cells re-executed when notebook variable p has changed
Again(nb, p) == Bound(nb, p) \ {nb.click}

(* ---- operations -------------------------------------------------------------------- *)
NbOps == {"nb.bind", "nb.data", "nb.assign", "nb.fetch", "nb.jsset", "nb.load"}
\* which cells an operation makes the page re-execute
RECURSIVE AssignAll(_, _)
AssignAll(nb, ps) ==
  IF ps = {} THEN nb
  ELSE LET p == CHOOSE p \in ps : TRUE IN
       AssignAll([nb EXCEPT !.js = [j \in DOMAIN @ |-> IF j \in nb.watch[p].js
                                     THEN [@[j] EXCEPT !.data = ToJs(nb.watch[p].pc, nb.ns[p])] ELSE @[j]]], ps \ {p})
\* a JavaScript variable all of whose bindings are to variables nobody watches never asks
HasTwo(nb, j) == DOMAIN nb.js[j].two # {}
Asked(nb, ps) == UNION {IF \E j \in nb.watch[p].js : HasTwo(nb, j) THEN Again(nb, p) ELSE {} : p \in ps}
Owner(nb, j, c) == {p \in DOMAIN nb.js[j].two : c \in nb.js[j].two[p]}
\* what loading a file shows
Loaded(nb, x) == IF x.a.cached /\ x.a.file \in DOMAIN nb.cache THEN nb.cache[x.a.file]
                 ELSE [scripts |-> x.a.scripts, markup |-> x.a.markup]
NbNext(nb, x) ==
  CASE x.op = "nb.bind" -> Bind([nb EXCEPT !.cells = Map1(@, x.a.cell, x.a.b)], x.a.cell, x.a.b, FALSE)
    [] x.op = "nb.data" -> Arrive(nb, x.a.js, ToJs(x.a.pc, x.a.v), "", FALSE, x.a.fc, x.a.cell, FALSE)
    [] x.op = "nb.assign" ->
         LET n1 == [nb EXCEPT !.ns = [i \in DOMAIN @ \cup DOMAIN x.a.sets |-> IF i \in DOMAIN x.a.sets THEN x.a.sets[i] ELSE @[i]]]
             ps == DOMAIN x.a.sets \cap DOMAIN nb.watch
         IN Rerun(AssignAll(n1, ps), Asked(n1, ps))
    [] x.op = "nb.fetch" -> [nb EXCEPT !.ns = Map1(@, x.a.var, FromJs(x.a.fc, nb.js[x.a.js].data))]
    [] x.op = "nb.jsset" ->
         LET n0 == [nb EXCEPT !.click = x.a.click]
             n1 == IF x.a.js \in DOMAIN nb.js THEN [n0 EXCEPT !.js[x.a.js].data = x.a.t]
                   ELSE [n0 EXCEPT !.js = Map1(@, x.a.js, [data |-> x.a.t, fc |-> "", two |-> [i \in {} |-> 0]])]
             o == Owner(n1, x.a.js, x.a.click)
             p == CHOOSE p \in o : TRUE
         IN IF o = {} THEN n1
            ELSE Rerun([n1 EXCEPT !.ns = Map1(@, p, FromJs(n1.js[x.a.js].fc, x.a.t))], Again(n1, p))
    [] x.op = "nb.load" -> IF x.a.keep THEN [nb EXCEPT !.cache = Map1(@, x.a.file, Loaded(nb, x))] ELSE nb
    [] OTHER -> nb
\* the cells that must have been re-executed by the operation
NbRan(nb, x) ==
  CASE x.op = "nb.assign" -> Asked(nb, DOMAIN x.a.sets \cap DOMAIN nb.watch)
    [] x.op = "nb.jsset" ->
         LET n1 == [nb EXCEPT !.click = x.a.click]
             o == IF x.a.js \in DOMAIN nb.js THEN Owner(nb, x.a.js, x.a.click) ELSE {}
         IN UNION {Again(n1, p) : p \in o}
    [] OTHER -> {}
NbErr(nb, x) ==
  IF x.op = "nb.load"
  THEN UNION {{c \in {"notebook.error"} : x.out.errs # <<>>},
              {c \in {"load.scripts"} : x.out.scripts # Loaded(nb, x).scripts},
              {c \in {"load.markup"} : x.out.markup # Loaded(nb, x).markup}}
  ELSE LET n == NbNext(nb, x) IN
  UNION {{c \in {"notebook.error"} : x.out.errs # <<>>},
         {c \in {"notebook.variables"} : x.out.ns # n.ns},
         {c \in {"page.variables"} : DOMAIN x.out.js # DOMAIN n.js},
         {c \in {"page.data"} : \E j \in DOMAIN x.out.js \cap DOMAIN n.js : x.out.js[j] # n.js[j].data},
         {c \in {"page.reruns"} : {x.out.ran[i] : i \in DOMAIN x.out.ran} # NbRan(nb, x)}}
=============================================================================
