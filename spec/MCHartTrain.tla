---------------------------- MODULE MCHartTrain ----------------------------
(* A home whose appliances are switched one at a time, recorded and learnt.  *)
EXTENDS HartTrain, Json
CONSTANTS Apps, Steps, Kinds, Rows
VARIABLES raw, on, rec, own, k
vars == <<raw, on, rec, own, k>>
L == <<200, 1200, 600>>
Base == 40
Total(o) == Base + SumS([a \in 1..Apps |-> IF o[a] THEN L[a] ELSE 0])
Init == \E kd \in Kinds : raw = <<kd, 15, 70, 20, 100, 35, 1000>>
        /\ on = [a \in 1..Apps |-> FALSE] /\ k = 0
        /\ rec = [i \in 1..Rows |-> Base] /\ own = [a \in 1..Apps |-> [i \in 1..Rows |-> 0]]
Phase(o) == /\ on' = o /\ rec' = rec \o [i \in 1..Rows |-> Total(o)]
            /\ own' = [a \in 1..Apps |-> own[a] \o [i \in 1..Rows |-> IF o[a] THEN L[a] ELSE 0]]
            /\ k' = k + 1 /\ UNCHANGED raw
Switch == k < Steps /\ \E a \in 1..Apps : Phase([on EXCEPT ![a] = ~@])
Idle == k < Steps /\ Phase(on)
Next == Switch \/ Idle
st == InitSt(raw)
A == <<1, Len(rec)>> \o rec \o <<Apps>> \o Flat([a \in 1..Apps |-> <<Len(rec)>> \o own[a]])
Tr == Train(st, A)
Ran(a) == \E i, j \in 1..Len(rec) : i < j /\ own[a][i] # 0 /\ own[a][j] = 0
\* an appliance that completed a cycle is learnt at exactly its level, and nothing else is
Exact(t) ==
  /\ t.ok <=> \E a \in 1..Apps : Ran(a)
  /\ {<<t.ls[i].num, t.ls[i].den>> : i \in 1..Len(t.ls)} = {<<t.ls[i].num, t.ls[i].den>> : i \in {x \in 1..Len(t.ls) :
        \E a \in 1..Apps : Ran(a) /\ t.ls[x].num = L[a] * t.ls[x].den}}
  /\ \A a \in 1..Apps : Ran(a) => \E i \in 1..Len(t.ls) : t.ls[i].num = L[a] * t.ls[i].den
\* no level twice; larger groups first
Distinct(t) == \A i, j \in 1..Len(t.ls) : i < j =>
              t.ls[i].num * t.ls[j].den # t.ls[j].num * t.ls[i].den /\ Before(t.ls[i], t.ls[j])
\* its own level is a good match for it, when learnt
OwnGood(t) == t.ok => \A a \in 1..Apps : \A i \in 1..Len(t.ls) :
             t.ls[i].num = L[a] * t.ls[i].den => GoodMatch(st, rec, t.ls, own[a], i)
Learning == LET t == TLCEval(Tr) IN Exact(t) /\ Distinct(t) /\ OwnGood(t)
Emit == k = Steps => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>],
   [op |-> "train", a |-> A, res |-> <<>>],
   [op |-> "predict", a |-> <<1, Len(rec)>> \o rec, res |-> <<>>],
   [op |-> "reload", a |-> <<>>, res |-> <<>>],
   [op |-> "levels", a |-> <<>>, res |-> <<>>],
   [op |-> "predict", a |-> <<1, Len(rec)>> \o rec, res |-> <<>>]>>))
=============================================================================
