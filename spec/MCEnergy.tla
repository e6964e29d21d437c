------------------------------ MODULE MCEnergy ------------------------------
(* Every small series of power, energy or cumulative energy, every chunk      *)
(* size, whole table and sections.                                            *)
EXTENDS Energy, Json
CONSTANTS MaxRows, Gaps, Powers, MaxP, Sizes
VARIABLES st, raw, job
vars == <<st, raw, job>>

Vals == {IF p = 777 THEN NaN ELSE p : p \in Powers}      \* 777 stands for a missing reading
RECURSIVE Times(_, _)
Times(t, gaps) == IF gaps = <<>> THEN <<t>> ELSE <<t>> \o Times(t + Head(gaps), Tail(gaps))

\* a second column derived from the first: energy (reactive) or cumulative energy (active)
Second(kind, i, v) == IF kind = 23 THEN i + 3 ELSE IF kind = 31 THEN 5 * i ELSE 230
Init == \E gaps \in UNION {[1..n -> Gaps] : n \in 1..(MaxRows - 1)} :
        \E ps \in [1..(Len(gaps) + 1) -> Vals] :
        \E kind \in {23, 31, 40}, top \in {NoLimit, 6} :
          LET ts == Times(0, gaps)
              head == <<MaxP, 2, 11, 0, top, kind, 0, 1000>>
              rows == Flat([i \in 1..Len(ts) |-> <<ts[i], ps[i], Second(kind, i, ps[i])>>])
          IN raw = head \o rows /\ st = InitSt(raw) /\ job = <<>>

Last == st.tab[Len(st.tab)][1]
SecChoices == {<<>>} \cup {<<0, b, 0, b, Last, 1>> : b \in 1..(Last - 1)} \cup {<<-5, -1, 0, 0, Last, 0>>}
\* a missing reading on a row shared by two chunks would hide the interval across it
Shared(n, j) == \E i \in 1..Len(st.tab) : st.tab[i][j + 1] = NaN /\ Len(st.tab) > n
Ask == job = <<>> /\ \E n \in Sizes, sc \in SecChoices, q \in {0, 1} :
          /\ Shared(n, 1) => n > Len(st.tab)
          /\ job' = <<n, q>> \o sc
       /\ UNCHANGED <<st, raw>>
Next == Ask

ChunkingIrrelevant == job # <<>> =>
  \A j \in 1..2 : Quantity(st.cols[j]) < 4 =>
    Total(st.tab, st.cols, j, TheSecs(st, job), st.maxp)
      = ChunkTotal(st.tab, st.cols, j, AllChunks(0, st.tab, Open, TheSecs(st, job), job[1]), 0, st.maxp)
\* energy of power readings is never more than power times elapsed time
NeverOverCounted == job # <<>> =>
  LET e == Total(st.tab, st.cols, 1, <<Frame(0, Last, FALSE, TRUE)>>, st.maxp)
      top == SetMax({0} \cup {st.tab[i][2] : i \in 1..Len(st.tab)})
  IN e >= 0 /\ e <= top * Last
Clipped == \A i \in 1..Len(st.tab) : st.tab[i][2] = NaN \/ raw[5] = NoLimit \/ st.tab[i][2] <= raw[5]
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", raw, <<>>), Ev("energy", job, EnergyObs(st, job))>>))
===========================================================================
