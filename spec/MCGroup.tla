------------------------------ MODULE MCGroup ------------------------------
EXTENDS Group, Json
CONSTANTS Two
VARIABLES st, raw, job
\* meter: instance, site, submeter of, disabled, room, model; appliance: type, instance, room, meters
M2 == {<<2, 1, 777, 0, 0, 1>>, <<2, 1, 777, 1, 0, 1>>, <<2, 0, 1, 0, 1, 2>>}
AppSets == {<<<<1, 1, 1, 1, 3>>, <<3, 1, 0, 1, 4>>>>,
            <<<<1, 1, 1, 1, 3>>, <<1, 2, 2, 1, 3>>, <<4, 1, 1, 1, 4>>>>,
            <<<<9, 1, 0, 1, 3>>, <<2, 1, 1, 1, 4>>, <<1, 1, 2, 1, 4>>>>,
            <<<<3, 1, 1, 2, 3, 4>>>>,
            <<<<1, 1, 1, 2, 4, 3>>>>}
Seconds == {<<>>, <<2, 1, 2, 1, 1, 777, 0, 0, 1, 3, 0, 1, 0, 1, 2, 1, 1, 1, 1, 1, 3>>,
            <<1, 2, 2, 1, 1, 777, 0, 0, 1, 2, 0, 0, 0, 2, 1, 1, 3, 1, 1, 1, 2>>}
Raw(m2, apps, second) ==
  <<1, 1, 4>> \o <<1, 1, 777, 0, 0, 1>> \o m2 \o <<3, 0, 1, 0, 1, 2>> \o <<4, 0, 3, 0, 2, 3>>
  \o <<Len(apps)>> \o Flat(apps) \o second
Init == \E m2 \in M2, apps \in AppSets, s \in Seconds : raw = Raw(m2, apps, s) /\ st = InitSt(raw) /\ job = <<>>
Gs == 0..Len(st)
Fields == {<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<4, 2>>, <<5, 11>>, <<5, 12>>, <<5, 22>>, <<6, 1>>, <<9, 1>>, <<9, 2>>}
Lists == {<<9, 12>>, <<9, 21>>, <<9, 23>>, <<9, 3>>}
AFields == {<<7, 1>>, <<7, 2>>, <<7, 3>>, <<7, 9>>, <<7, 101>>, <<1, 1>>, <<1, 2>>, <<4, 1>>, <<4, 2>>, <<8, 1>>, <<8, 12>>, <<2, 1>>, <<3, 2>>}
Ask(o, a) == job' = <<o, a>>
Next == job = <<>> /\ UNCHANGED <<st, raw>> /\ \E g \in Gs :
  \/ \E o \in {"members", "mains", "submeters", "periods"} : Ask(o, <<g>>)
  \/ g > 0 /\ \E o \in {"disabled", "altmains"} : Ask(o, <<g>>)
  \/ \E i \in {1, 2, 3, 4, 9} : Ask("int", <<g, i>>)
  \/ \E i \in {0, 1, 3}, b \in {1, 2}, d \in {1, 2} : Ask("id", <<g, i, b, d>>)
  \/ \E f \in {1, 2, 3}, p \in {<<3, 1, 1, 4, 1, 1>>, <<4, 1, 1, 3, 1, 1>>, <<3, 1, 1, 2, 1, 1>>, <<3, 2, 1, 4, 2, 1>>} : Ask("ids", <<g, f>> \o p)
  \/ \E t \in {1, 2, 3, 9, 101}, i \in {1, 2} : Ask("app", <<g, t, i>>)
  \/ \E x, y \in AFields : Ask("dict", <<g>> \o x \o (IF x[1] = y[1] THEN <<>> ELSE y))
  \/ \E i, j \in {1, 2, 3, 4} : i # j /\ Ask("pair", <<g, i, j>>)
  \/ \E x, y \in Fields : Ask("select", <<g>> \o x \o (IF x[1] = y[1] THEN <<>> ELSE y))
  \/ \E x \in Fields, y \in Lists : x[1] # 9 /\ Ask("select", <<g>> \o x \o y)
  \/ \E v, w \in {1, 2, 3} : v # w /\ Ask("selectany", <<g, 9, v, w>>)
  \/ \E x, y \in AFields : Ask("selectapp", <<g>> \o x \o (IF x[1] = y[1] THEN <<>> ELSE y))
  \/ \E v, w \in {1, 2, 3} : v # w /\ (Ask("selectany", <<g, 4, v, w>>) \/ Ask("selectappany", <<g, 7, v, w>>))
  \/ Ask("groupby", <<g, 4>>) \/ Ask("groupby", <<g, 7>>)
  \/ Ask("selectappany", <<g, 7, 1, 101>>) \/ Ask("selectappany", <<g, 8, 1, 12>>)
  \/ \E x \in Fields, y \in {<<7, 1>>, <<4, 1>>, <<8, 1>>, <<1, 1>>} : Ask("union", <<g>> \o x \o y) \/ Ask("equal", <<g>> \o x \o y)
  \/ \E p \in {<<1, 1, 1, 1>>, <<2, 1, 1, 1, 3, 1, 1>>, <<1, 1, 1, 1, 3, 1, 1, 4, 1, 1>>, <<1, 3, 1, 1, 1, 1, 1, 2, 1, 1>>, <<1, 9, 1, 1>>} :
        Ask("fromlist", <<g>> \o p)
Res == Apply(st, [op |-> job[1], a |-> job[2]]).res
Ids(g) == {Codes_(g[k]) : k \in 1..Len(g)}
MainsAndSubmetersPartition == \A g \in Gs : LET all == Grp(st, g) IN
   Ids(SelectSeq(all, Site)) \cup Ids(Submeters(all)) = Ids(all) /\ Ids(SelectSeq(all, Site)) \cap Ids(Submeters(all)) = {}
CriteriaIntersect == (job # <<>> /\ job[1] = "select" /\ Len(job[2]) = 5) =>
   LET g == Grp(st, job[2][1]) cr == Crits(job[2], 2) IN
   \A k \in 1..Len(g) : Len(g[k]) = 1 =>
      ((Codes_(g[k]) \in Ids(ByMeter(g, cr))) <=>
       (Codes_(g[k]) \in Ids(ByMeter(g, <<cr[1]>>)) /\ Codes_(g[k]) \in Ids(ByMeter(g, <<cr[2]>>))))
LookUpMatches == (job # <<>> /\ job[1] = "app" /\ ~IsExc(Res)) =>
   \E k \in 1..Len(Grp(st, job[2][1])) : LET mem == Grp(st, job[2][1])[k] IN
      Item(mem) = Res /\ \E j \in 1..Len(mem), x \in 1..3 : x <= Len(mem[j].apps) /\ mem[j].apps[x].t = Syn(job[2][2]) /\ mem[j].apps[x].i = job[2][3]
UnionIsAll == Ids(Grp(st, 0)) = UNION {Ids(Grp(st, k)) : k \in 1..Len(st)}
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
After == Apply(st, [op |-> job[1], a |-> job[2]]).st
Emit == job # <<>> => PrintT(ToJson(<<Ev("begin", raw, <<>>), Ev(job[1], job[2], Res), Ev("members", <<1>>, Apply(After, Ev("members", <<1>>, <<>>)).res)>>))
===========================================================================
