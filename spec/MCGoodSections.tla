-------------------------- MODULE MCGoodSections --------------------------
(* Every gap pattern, every pattern of missing readings, every chunk size.  *)
EXTENDS GoodSections, Json
CONSTANTS MaxRows, MaxGap, MaxP, Sizes
VARIABLES tab, job
vars == <<tab, job>>

RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))
Init == \E gaps \in UNION {[1..n -> 1..MaxGap] : n \in 1..(MaxRows - 1)} :
        \E miss \in SUBSET (1..(Len(gaps) + 1)) :
          /\ Cardinality(miss) <= 2
          /\ tab = [i \in 1..(Len(gaps) + 1) |-> <<Times(0, gaps)[i], IF i \in miss THEN 0 ELSE 1, 0>>]
          /\ job = <<>>

Last == tab[Len(tab)][1]
SecChoices == {<<>>} \cup {<<0, b, 0, b, Last, 1>> : b \in 1..(Last - 1)}
               \cup {<<0, b, 0>> : b \in {Last - 1} \cap 1..Last}
               \cup {<<0, b, 0, b + 1, Last, 1>> : b \in {x \in {1, Last - 2} : x >= 1 /\ x + 1 < Last}}
Ask == job = <<>> /\ \E n \in Sizes, sc \in SecChoices : job' = <<MaxP, n>> \o sc
       /\ tab' = tab
Next == Ask

S1 == TheSecs(tab, job, 3)
G == Good(tab, MaxP, S1)
Asked == job # <<>>
ChunkingIrrelevant == Asked => G = GoodChunked(tab, MaxP, S1, job[2])
(* for the whole table: the sections are exactly the maximal runs *)
V == Valid(tab, 1, Len(tab))
WholeTable == (Asked /\ Len(job) = 2) =>
  /\ \A g \in {G[i] : i \in 1..Len(G)} : \E i, j \in 1..Len(V) : i < j /\ V[i] = g[1] /\ V[j] = g[2]
  /\ \A i \in 1..(Len(V) - 1) :
       (V[i + 1] - V[i] <= MaxP) <=> \E k \in 1..Len(G) : G[k][1] <= V[i] /\ V[i + 1] <= G[k][2]
Disjoint == Asked => \A i \in 1..(Len(G) - 1) : G[i][1] < G[i][2] /\ G[i][2] <= G[i + 1][1]
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == Asked => PrintT(ToJson(<<Ev("begin", Flat(tab), <<>>), Ev("good", job, Obs(G)), Ev("good_again", job, Obs(G))>>))
===========================================================================
