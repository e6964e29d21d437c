------------------------------ MODULE MCFhmm --------------------------------
EXTENDS Fhmm, Json
CONSTANTS MaxApps, MaxStates, Heavy
VARIABLES raw, st
\* chains of a given size; means distinguish appliances and states, two probability patterns
Chain(k, n, f) == [m |-> [i \in 1..n |-> (i - 1) * (IF f = 1 THEN 10 ELSE 1) * (IF k = 1 THEN 1 ELSE IF k = 2 THEN 7 ELSE 50)],
                   p |-> [i \in 1..n |-> IF i = 1 + ((f + k) % n) THEN D - n + 1 ELSE 1],
                   t |-> [i \in 1..n |-> [j \in 1..n |-> IF j = 1 + ((i * f + k) % n) THEN D - n + 1 ELSE 1]]]
Nums(c) == <<N(c)>> \o c.m \o c.p \o Flat(c.t)
Init == \E n \in 1..MaxApps : \E sz \in [1..n -> 1..MaxStates], f \in [1..n -> 1..2] :
          /\ Prod(sz) <= Heavy
          /\ raw = Flat([k \in 1..n |-> Nums(Chain(k, sz[k], f[k]))]) /\ st = InitSt(raw)
Next == FALSE /\ UNCHANGED <<raw, st>>
cs == st.cs
RoundTrip == \A j \in Joint(cs) : Encode(cs, Decode(cs, j)) = j
Unique == \A i, j \in Joint(cs) : Decode(cs, i) = Decode(cs, j) => i = j
StartSums == SumSeq([j \in 1..Count(cs) |-> StartP(cs, j - 1)]) = Pow(Len(cs))
TransSums == \A i \in Joint(cs) : SumSeq([j \in 1..Count(cs) |-> TransP(cs, i, j - 1)]) = Pow(Len(cs))
\* one more appliance multiplies: the joint model of two parts is the product of their joint models
Kron == Len(cs) > 1 => \A j \in Joint(cs) : LET r == Count(Tail(cs)) IN
          /\ StartP(cs, j) = cs[1].p[(j \div r) + 1] * StartP(Tail(cs), j % r)
          /\ Mean(cs, j) = cs[1].m[(j \div r) + 1] + Mean(Tail(cs), j % r)
Ev(o, a) == [op |-> o, a |-> a, res |-> Apply(st, [op |-> o, a |-> a]).res]
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], Ev("means", <<>>), Ev("start", <<>>), Ev("trans", <<>>),
                        Ev("decode", [j \in 1..Count(cs) |-> Count(cs) - j])>>))
=============================================================================
