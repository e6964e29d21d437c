----------------------------- MODULE MCPipeline -----------------------------
EXTENDS Pipeline, Json
CONSTANTS Vals, CVals, Limits
VARIABLES job
Absent == <<0, 0, 0>>
Opt(V) == {-1} \cup V
Trees(V) == {Absent} \cup {<<1, v, 0>> : v \in V} \cup {<<2, x, y>> : x \in Opt(V), y \in Opt(V)}
Init == job = <<>>
ReqVals == Vals \cup {AnyValue}
AskUnsat == \E s1 \in Trees(Vals), r1 \in Trees(ReqVals), r2 \in {Absent, <<1, 0, 0>>, <<1, AnyValue, 0>>, <<2, 0, -1>>} :
            \E s2 \in {Absent, <<1, 0, 0>>, <<2, 0, 1>>} :
              job' = <<"unsat", <<2>> \o s1 \o s2 \o r1 \o r2>>
\* two nodes over one key
AskChain == \E s \in {Absent, <<1, 0, 0>>, <<2, 0, -1>>}, r1 \in Trees({0, AnyValue}), p1 \in Trees({0, 1}), r2 \in Trees(ReqVals) :
              job' = <<"chain", <<1, 2, 2>> \o s \o r1 \o p1 \o r2 \o Absent>>
Lim == {IF x = 777 THEN NoLimit ELSE x : x \in Limits}
Num == {IF x = 777 THEN NaN ELSE x : x \in CVals}
AskClip == \E l1, h1 \in Lim, l2 \in {NoLimit, 0}, h2 \in {NoLimit, 250}, f \in {NoLimit, 0, 2}, v, w \in Num, col \in {13, 40} :
              /\ l1 # NoLimit /\ h1 # NoLimit => l1 <= h1
              /\ job' = <<"clip", <<2, 2, f, NoLimit>> \o <<11, l1, h1, col, l2, h2>> \o <<v, 230, w, 260>>>>
              /\ (f # NoLimit) => (h1 = NoLimit \/ h1 >= f)
AskPass == \E n1, n2, n3 \in 0..5, v \in {-3, 50, 80} :
              LET nodes == SelectSeq(<<n1, n2, n3>>, LAMBDA x : x > 0) IN
              job' = <<"pass", <<Len(nodes)>> \o nodes \o <<0, 5, 1, v, 120>> \o <<5, 9, 0, 7, v>>>>
AskStd == \E n \in 1..5, m, x, p, q \in {0, 1} : job' = <<"std", <<n, m, x, p, q>>>>
Next == job = <<>> /\ (AskUnsat \/ AskChain \/ AskClip \/ AskPass \/ AskStd)
Res == Apply(0, [op |-> job[1], a |-> job[2]]).res
\* clipped values are inside the limits, and only values outside move
ClipSound == (job # <<>> /\ job[1] = "clip") =>
   LET a == job[2] lo == IF a[3] # NoLimit THEN a[3] ELSE a[6] hi == a[7] v == a[11] w == Res[1] IN
   v # NaN => /\ lo = NoLimit \/ w >= lo
              /\ hi = NoLimit \/ w <= hi
              /\ (w = v \/ w = lo \/ w = hi)
\* a requirement satisfied by a state stays satisfied when more is provided
Monotone == (job # <<>> /\ job[1] = "chain") =>
   LET c == Chain(job[2]) IN
   (~Conflict(c.s, c.nodes[1].post) /\ Unsat(c.s, c.nodes[2].req) = 0) => Unsat(Join(c.s, c.nodes[1].post), c.nodes[2].req) = 0
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> <<>>, res |-> <<>>], [op |-> job[1], a |-> job[2], res |-> Res]>>))
===========================================================================
