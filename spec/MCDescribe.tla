----------------------------- MODULE MCDescribe -----------------------------
(* A home described twice, in two data sets, with small differences; names and *)
(* marks are given in every order, then one question is asked.                 *)
EXTENDS Describe, Json
CONSTANTS Changes
VARIABLES st, raw, past, job
Site1 == {<<>>, <<2, 1, 777, 0, 0, 1>>, <<2, 1, 777, 1, 0, 1>>}
AppSets == {<<<<1, 1, 1, 1, 3>>, <<3, 1, 0, 1, 3>>, <<4, 1, 2, 1, 5>>>>,
            <<<<1, 1, 2, 2, 3, 4>>, <<1, 1, 0, 1, 5>>>>,
            <<<<2, 1, 1, 2, 4, 5>>, <<4, 7, 1, 1, 0>>, <<1, 2, 1, 1, 3>>>>}
\* the twin: the same, without meter 5, or with single meters only
Home(d, m2, apps, five) ==
  <<1, d, 3 + Len(m2) \div 6 + five, 1, 1, 777, 0, 0, 1>> \o m2 \o <<3, 0, 1, 0, 1, 2>> \o <<4, 0, 3, 0, 2, 3>>
  \o (IF five = 1 THEN <<5, 0, 0, 0, 0, 1>> ELSE <<>>) \o <<Len(apps)>> \o Flat(apps)
Fit(apps, five) == SelectSeq(apps, LAMBDA x : five = 1 \/ \A k \in 5..Len(x) : x[k] # 5)
Other(m2, apps, v) == CASE v = 0 -> Home(2, m2, apps, 1) [] v = 1 -> Home(2, m2, Fit(apps, 0), 0)
                        [] v = 2 -> Home(2, <<>>, SelectSeq(apps, LAMBDA x : x[4] = 1), 1) [] OTHER -> <<>>
Elsewhere == <<2, 1, 2, 1, 1, 777, 0, 0, 1, 3, 0, 1, 0, 1, 2, 1, 1, 1, 1, 1, 3>>
Init == \E m2 \in Site1, apps \in AppSets, v \in 0..3, e \in {0, 1} :
          /\ raw = Home(1, m2, apps, 1) \o Other(m2, apps, v) \o (IF e = 1 THEN Elsewhere ELSE <<>>)
          /\ st = InitSt(raw) /\ past = <<>> /\ job = <<>>
N == Len(st.w)
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Res == Apply(st, [op |-> job[1], a |-> job[2]]).res
Do(o, a) == LET r == Apply(st, [op |-> o, a |-> a]) IN
            st' = r.st /\ past' = Append(past, Ev(o, a, r.res)) /\ UNCHANGED <<raw, job>>
Change == job = <<>> /\ Len(past) < Changes /\
   \/ \E i \in {1, 3, 4}, n \in {1, 2} : Do("rename", <<1, i, n>>)
   \/ \E i \in {1, 3, 5}, k \in {1, 2} : Do("mark", <<1, i, k>>)
   \/ \E k \in {1, 2} : Do("unmark", <<1, 3, k>>)
   \/ past # <<>> /\ Do("reload", <<1>>)
Ask(o, a) == job' = <<o, a>>
Question == job = <<>> /\ UNCHANGED <<st, raw, past>> /\
   \/ \E g \in 0..N, o \in {"dominants", "appliances", "labels", "where"} : Ask(o, <<g>>)
   \/ \E g \in {0, 1}, f \in {4, 7, 10, 11}, b \in {0, 1} : Ask("values", <<g, f, b>>)
   \/ \E i \in {1, 3, 5}, p \in {0, 1} : Ask("label", <<1, i, p>>)
   \/ \E i \in {1, 3, 4} : Ask("dominant", <<1, i>>) \/ \E j \in {1, 3, 4, 5} : i < j /\ (Ask("upall", <<1, i, j>>) \/ Ask("onedom", <<1, i, j>>) \/ Ask("issite", <<1, i, j>>))
   \/ past = <<>> /\ \E g \in 1..N, d \in {1, 2} : Ask("counterpart", <<g, d>>)
   \/ past = <<>> /\ \E g, h \in 1..N : Ask("zip", <<g, h>>)
   \/ past = <<>> /\ \E d \in {1, 2} : d \in {st.w[k].d : k \in 1..N} /\ Ask("elecs", <<d>>)
   \/ past = <<>> /\ \E g \in 1..N : Ask("sorted", <<g>>)
Next == Change \/ Question
Rng(s) == {s[k] : k \in 1..Len(s)}
\* the appliances that dominate are appliances, and no more than one per meter
DominantsAreAppliances == \A g \in 0..N : LET G == Grp(st.w, g) IN
   /\ Rng(AppCodes(DomApps(st, G))) \subseteq Rng(AppCodes(Apps(G)))
   /\ Cardinality(DomApps(st, G)) <= Cardinality(Pairs(G))
\* every appliance of a building belongs to the group of its building, and all of them to the group of all
NoneLost == Rng(AppCodes(Apps(Grp(st.w, 0)))) = UNION {Rng(AppCodes(Apps(Grp(st.w, k)))) : k \in 1..N}
\* going to the other data set and back leads to where one came from
ThereAndBack == \A g \in 1..N : LET G == Grp(st.w, g) d == st.w[g].d IN
   ~IsExc(Counterpart(st.w, 3 - d, G)) =>
      \A p \in Pairs(G) : There(st.w, d, There(st.w, 3 - d, G[p[1]][p[2]])[1])[1] = G[p[1]][p[2]]
\* a name shows in the label of its meter, and loading again takes it away
NamesShow == \A x \in st.names : \E k \in 1..Len(st.w[1].ms) :
   Code(st.w[1].ms[k]) = x[1] /\ Pretty(st, st.w[1].ms[k]) = 50 + x[2]
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", raw, <<>>)>> \o past \o <<Ev(job[1], job[2], Res)>>))
=============================================================================
