----------------------------- MODULE MCLoopSearch -----------------------------
(***************************************************************************)
(* The search as an algorithm: from the start node, edges are followed     *)
(* back through a queue served in any order.  Every graph, every order and *)
(* every moment of giving up keep the guarantee of LoopSearch.             *)
(***************************************************************************)
EXTENDS LoopSearch
CONSTANTS Nodes, Pairs, Lens, MinD, MaxD, Limit
VARIABLES edges, start, fringe, visited, used, tries, phase
vars == <<edges, start, fringe, visited, used, tries, phase>>
N == Len(Nodes)
Init == edges = {} /\ start = 0 /\ fringe = {} /\ visited = {} /\ used = {} /\ tries = << >> /\ phase = "build"
AddEdge == /\ phase = "build"
           /\ \E p \in Pairs, len \in Lens :
                LET e == [f |-> p[1], t |-> p[2], len |-> len] IN
                (\A x \in edges : <<x.f, x.t>> # p) /\ edges' = edges \cup {e}
           /\ UNCHANGED <<start, fringe, visited, used, tries, phase>>
Out(n, d, vis, us) == {[n |-> e.f, d |-> d + e.len] : e \in {e \in edges \ us : e.t = n /\ e.f \notin vis}}
Into(n) == {e \in edges : e.t = n}
Begin == /\ phase = "build"
         /\ \E s \in 0 .. N - 1 :
              /\ start' = s /\ visited' = {s} /\ fringe' = Out(s, 0, {s}, {}) /\ used' = Into(s)
         /\ phase' = "search" /\ UNCHANGED <<edges, tries>>
Pop == /\ phase = "search" /\ Len(tries) < Limit
       /\ \E c \in fringe :
            IF c.n \in visited THEN fringe' = fringe \ {c} /\ UNCHANGED <<visited, used, tries>>
            ELSE /\ visited' = visited \cup {c.n} /\ used' = used \cup Into(c.n)
                 /\ fringe' = (fringe \ {c}) \cup Out(c.n, c.d, visited', used)
                 /\ tries' = IF 4 * Far2(Nodes, start, c.n) < Sq(MaxD) /\ 2 * c.d >= MinD THEN Append(tries, c.n) ELSE tries
       /\ UNCHANGED <<edges, start, phase>>
Stop == /\ phase = "search" /\ (fringe = {} \/ Len(tries) = Limit) /\ phase' = "done"
        /\ UNCHANGED <<edges, start, fringe, visited, used, tries>>
Next == AddEdge \/ Begin \/ Pop \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Pop \/ Stop)
Guarantee == phase = "done" => TriesOK(Nodes, edges, start, MinD, MaxD, tries, Limit)
Never == phase # "build" => /\ Distinct(tries) /\ start \notin Range(tries)
                            /\ Range(tries) \subseteq Candidates(Nodes, Ways(edges, start), start, MinD, MaxD)
Ends == (phase = "search") ~> (phase = "done")
===============================================================================
