------------------------------ MODULE MCKeys --------------------------------
EXTENDS Keys, Json
CONSTANTS Len1, Len2, Bs, Ms
VARIABLES job
Alpha == {Slash, Building, Meter, Elec, Gas, Minus, 10, 11}
Texts == SeqsUpTo(Alpha, Len1) \cup
         {<<Building, 11>> \o t : t \in SeqsUpTo(Alpha, Len2)} \cup
         {<<Slash, Building, 12, 10, Slash, Elec, Slash>> \o t : t \in SeqsUpTo(Alpha, Len2)}
PartSet == {<<>>, <<Slash>>, <<Building, 11>>, <<Slash, Elec, Slash>>, <<Meter, 12, Slash>>, <<Slash, Slash, Gas>>}
Glue(ps) == Flat([i \in 1..Len(ps) |-> IF i = 1 THEN ps[i] ELSE <<99>> \o ps[i]])
Init == \/ \E t \in Texts : job = <<"parse", t>>
        \/ \E b \in Bs, m \in Ms : job = <<"make", <<b, m>>>>
        \/ \E n \in 1..3 : \E f \in [1..n -> PartSet] : job = <<"join", Glue(f)>>
Next == FALSE /\ UNCHANGED job
\* the canonical text of a location parses back to it, and is unchanged by that
RoundTrip == job[1] # "join" =>
  LET k == IF job[1] = "parse" THEN Parse(job[2]) ELSE Make(job[2][1], job[2][2])
  IN k.ok => LET j == Parse(Text(k)) IN j.ok /\ j.b = k.b /\ j.m = k.m /\ Text(j) = Text(k)
Distinct == job[1] = "make" => LET k == Make(job[2][1], job[2][2]) IN k.ok =>
              \A b \in Bs, m \in Ms : LET j == Make(b, m) IN (j.ok /\ Text(j) = Text(k)) => j = k
\* joining in two steps is joining in one
Assoc == job[1] = "join" => LET p == Parts(job[2], <<>>) IN
           Len(p) = 3 => /\ Join(<<Join(SubSeq(p, 1, 2)), p[3]>>) = Join(p)
                         /\ Join(<<p[1], Join(SubSeq(p, 2, 3))>>) = Join(p)
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> <<>>, res |-> <<>>],
                        [op |-> job[1], a |-> job[2], res |-> Apply(<<>>, [op |-> job[1], a |-> job[2]]).res]>>))
=============================================================================
