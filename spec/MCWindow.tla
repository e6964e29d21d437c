------------------------------ MODULE MCWindow ------------------------------
(* Two datasets, windows set, disabled and cleared in any order.              *)
EXTENDS Window, Json
CONSTANTS MaxSteps, Bounds
VARIABLES st, log
vars == <<st, log>>
T1 == <<<<0, 5>>, <<1, 7>>, <<2, 4>>, <<6, 9>>, <<7, 3>>>>
T2 == <<<<3, 8>>, <<4, 2>>>>
T3 == <<<<1, 6>>, <<2, 1>>, <<3, 2>>>>
M(d, b, i, t) == <<d, b, i, Len(t)>> \o Flat(t)
Raw == <<1, 4>> \o M(1, 1, 1, T1) \o M(1, 1, 2, T2) \o M(1, 2, 1, T3) \o M(2, 1, 1, T3)
Init == st = InitSt(Raw) /\ log = <<>>
B2 == {IF b = 777 THEN NegInf ELSE b : b \in Bounds}
E2 == {IF b = 777 THEN PosInf ELSE b : b \in Bounds}
Do(op, a) == LET r == Apply(st, [op |-> op, a |-> a]) IN
             /\ st' = r.st /\ log' = Append(log, [op |-> op, a |-> a, res |-> r.res])
More == Len(log) < MaxSteps
Set == More /\ \E d \in {1}, s \in B2, e \in E2 : Do("set", <<d, s, e>>)
SetOther == More /\ Do("set", <<2, 2, PosInf>>)
Enable == More /\ \E x \in {0, 1} : Do("enable", <<1, x>>)
Reopen == More /\ Do("reopen", <<1>>)
Next == Set \/ SetOther \/ Enable \/ Reopen
\* everything asked for at the end
Ask == <<<<"load", <<1>>>>, <<"load", <<2>>>>, <<"load", <<1, 1, 7, 1>>>>, <<"load", <<4>>>>, <<"frame", <<1>>>>, <<"frame", <<3>>>>,
         <<"group", <<1, 1>>>>, <<"energy", <<1>>>>, <<"energy", <<4>>>>, <<"good", <<1>>>>, <<"split", <<1, 1, 1, 2>>>>>>
Answers == [k \in 1..Len(Ask) |-> [op |-> Ask[k][1], a |-> Ask[k][2], res |-> Apply(st, [op |-> Ask[k][1], a |-> Ask[k][2]]).res]]
\* nothing outside the window is seen, everything inside it is
Seen_(m) == Rows(m.tab, Eff(st.win[m.d]))
Exact == \A k \in 1..Len(st.meters) :
  LET m == st.meters[k] w == Eff(st.win[m.d]) r == Seen_(m) IN
  /\ \A i \in 1..Len(r) : S(w) <= m.tab[r[i]][1] /\ m.tab[r[i]][1] < E(w)
  /\ \A i \in 1..Len(m.tab) : S(w) <= m.tab[i][1] /\ m.tab[i][1] < E(w) => \E j \in 1..Len(r) : r[j] = i
\* a refused window changes nothing; datasets do not see each other's windows
Last == log[Len(log)]
Independent == [][\A d \in {1, 2} : st'.win[d] # st.win[d] => log'[Len(log')].a[1] = d]_vars
GoodInside == \A k \in 1..Len(st.meters) : LET m == st.meters[k] g == GoodOf(st, m) IN
  \A i \in 1..Len(g) : Seen(st, m).s <= g[i][1] /\ g[i][2] <= Seen(st, m).e
Emit == Len(log) = MaxSteps => PrintT(ToJson(<<[op |-> "begin", a |-> Raw, res |-> <<>>]>> \o log \o Answers))
=============================================================================
