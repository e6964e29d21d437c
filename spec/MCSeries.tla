------------------------------ MODULE MCSeries ------------------------------
(* Every small table, section list and chunk size.                            *)
EXTENDS Series, Json
CONSTANTS MaxT, Sizes
VARIABLES st, raw, job
vars == <<st, raw, job>>
Rep == <<5, 7, 3, 777, 9, 2, 8>>
V(t, c) == IF Rep[(t % 7) + 1] = 777 /\ c = 11 THEN NaN ELSE Rep[((t + c) % 3) + 1] + t
Init == \E ts \in (SUBSET (0..MaxT)) \ {{}}, cols \in {<<11>>, <<12, 11>>, <<40, 13, 12>>} :
          LET s == SortedSeq(ts) IN
          /\ raw = <<Len(cols)>> \o cols \o Flat([i \in 1..Len(s) |-> <<s[i]>> \o [k \in 1..Len(cols) |-> V(s[i], cols[k])]])
          /\ st = InitSt(raw) /\ job = <<>>
Pairs == {<<b, e, i>> : b \in {0, 2}, e \in {3, 4, MaxT}, i \in {0, 1}}
SecChoices == {<<>>} \cup Pairs \cup {x \o y : x \in Pairs, y \in Pairs}
Ask == job = <<>> /\ \E n \in Sizes, acs \in {<<>>, <<9>>}, sc \in SecChoices :
          job' = <<n, Len(acs)>> \o acs \o sc /\ UNCHANGED <<st, raw>>
Next == Ask
\* joining chunks loses nothing and repeats nothing
JoinExact == job # <<>> => Joined(st.tab, st.win, SecsOf(job), job[1]) = WholeRows(st.tab, st.win, SecsOf(job))
NoRepeat == job # <<>> => LET r == WholeRows(st.tab, st.win, SecsOf(job)) IN \A i, j \in 1..Len(r) : i # j => r[i] # r[j]
\* sections in order give readings in order
Ordered(secs) == \A k \in 1..(Len(secs) - 1) : secs[k].s <= secs[k + 1].s
InOrder == job # <<>> => (Ordered(SecsOf(job)) =>
             LET r == WholeRows(st.tab, st.win, SecsOf(job)) IN \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1])
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>],
   [op |-> "chunks", a |-> job, res |-> Apply(st, [op |-> "chunks", a |-> job]).res],
   [op |-> "all", a |-> job, res |-> Apply(st, [op |-> "all", a |-> job]).res],
   [op |-> "vampire", a |-> <<>>, res |-> Apply(st, [op |-> "vampire", a |-> <<>>]).res]>>))
=============================================================================
