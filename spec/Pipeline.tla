------------------------------ MODULE Pipeline ------------------------------
(* Processing nodes: what they require, what they provide, what they pass on. *)
(*                                                                            *)
(* A tree of properties has a fixed number of keys; each key is absent        *)
(* <<0,0,0>>, a value <<1,v,0>>, or a group <<2,x,y>> of two values (-1 for     *)
(* absent).  In a requirement the value AnyValue stands for any value.              *)
EXTENDS Codes
AnyValue == 9
NoLimit == -999999

(* ---- requirements ---- *)
Sub(req, got) == IF req = -1 THEN 0 ELSE IF got = -1 THEN 1 ELSE IF req = AnyValue \/ got = req THEN 0 ELSE 1
UnsatAt(s, r) ==
  IF r[1] = 0 THEN 0
  ELSE IF s[1] = 0 THEN 1
  ELSE IF r[1] = 1 THEN (IF r[2] = AnyValue THEN 0 ELSE IF s[1] = 1 /\ s[2] = r[2] THEN 0 ELSE 1)
  ELSE IF s[1] # 2 THEN 1
  ELSE Sub(r[2], s[2]) + Sub(r[3], s[3])
Unsat(s, r) == SumSeq([k \in 1..Len(r) |-> UnsatAt(s[k], r[k])])

(* ---- conditions provided upstream ---- *)
Clash(x, y) == x # -1 /\ y # -1 /\ x # y
ClashAt(s, t) == /\ s[1] # 0 /\ t[1] # 0
                 /\ \/ s[1] # t[1]
                    \/ Clash(s[2], t[2])
                    \/ s[1] = 2 /\ Clash(s[3], t[3])
Both(x, y) == IF x = -1 THEN y ELSE x
JoinAt(s, t) == IF s[1] = 0 THEN t ELSE IF t[1] = 0 THEN s
                ELSE IF s[1] = 1 THEN s ELSE <<2, Both(s[2], t[2]), Both(s[3], t[3])>>
Conflict(s, t) == \E k \in 1..Len(s) : ClashAt(s[k], t[k])
Join(s, t) == [k \in 1..Len(s) |-> JoinAt(s[k], t[k])]
\* nodes: sequence of [req, post]; the state each one sees
RECURSIVE Walk(_, _)
Walk(s, nodes) ==
  IF nodes = <<>> THEN "ok"
  ELSE LET n == Head(nodes) IN
       IF Unsat(s, n.req) > 0 THEN "refused"
       ELSE IF Conflict(s, n.post) THEN "open"
       ELSE Walk(Join(s, n.post), Tail(nodes))

(* ---- clipping ---- *)
ClipTo(v, lo, hi) == IF v = NaN THEN v
                     ELSE IF lo # NoLimit /\ v < lo THEN lo
                     ELSE IF hi # NoLimit /\ v > hi THEN hi ELSE v

Tree(a, i, K) == [k \in 1..K |-> <<a[i + 3 * (k - 1)], a[i + 3 * (k - 1) + 1], a[i + 3 * (k - 1) + 2]>>]
(* unsat: K, state, requirement.
   chain: K, number of chunks, number of nodes, state, then requirement and postcondition of each node.
   clip: number of columns, rows, forced lower, forced upper, then column, lower, upper of each, then the rows.
   pass: number of nodes, the nodes, then start, end, look-ahead and two readings of each chunk. *)
Chain(a) == LET K == a[1] IN
  [s |-> Tree(a, 4, K),
   nodes |-> [j \in 1..a[3] |-> [req |-> Tree(a, 4 + 3 * K * (2 * j - 1), K), post |-> Tree(a, 4 + 3 * K * 2 * j, K)]]]
ClipObs(a) ==
  LET n == a[1]
      m == a[2]
      lo(k) == IF a[3] # NoLimit THEN a[3] ELSE a[5 + 3 * (k - 1) + 1]
      hi(k) == IF a[4] # NoLimit THEN a[4] ELSE a[5 + 3 * (k - 1) + 2]
      cell(i, k) == a[4 + 3 * n + n * (i - 1) + k]
  IN Flat([i \in 1..m |-> [k \in 1..n |-> ClipTo(cell(i, k), lo(k), hi(k))]])
\* nodes 1 clip to 0..100, 2 apply (double), 3 energy, 4 good sections, 5 dropout rate
Through(node, v) == CASE node = 1 -> ClipTo(v, 0, 100) [] node = 2 -> (IF v = NaN THEN v ELSE 2 * v) [] OTHER -> v
RECURSIVE ThroughAll(_, _)
ThroughAll(nodes, v) == IF nodes = <<>> THEN v ELSE ThroughAll(Tail(nodes), Through(Head(nodes), v))
PassObs(a) ==
  LET n == a[1]
      nodes == SubSeq(a, 2, n + 1)
      m == (Len(a) - n - 1) \div 5
      at(j, k) == a[n + 1 + 5 * (j - 1) + k]
      unclipped == \E i \in 1..n : nodes[i] = 3 /\ \A k \in 1..(i - 1) : nodes[k] # 1
  IN IF unclipped THEN OtherErr      \* energy is computed from clipped readings only
     ELSE Flat([j \in 1..m |-> <<at(j, 1), at(j, 2), at(j, 3), ThroughAll(nodes, at(j, 4)), ThroughAll(nodes, at(j, 5))>>])

\* std: node, then whether measurements, maximum sample period, sample period are known and whether clipped
StdOk(a) == CASE a[1] = 1 -> a[2] = 1 [] a[1] = 3 -> a[3] = 1 /\ a[5] = 1
              [] a[1] = 4 -> a[3] = 1 [] a[1] = 5 -> a[4] = 1 [] OTHER -> TRUE
InitSt(a) == 0
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "unsat" -> R(st, <<Unsat(Tree(a, 2, a[1]), Tree(a, 2 + 3 * a[1], a[1]))>>)
    [] ev.op = "chain" -> LET c == Chain(a) w == Walk(c.s, c.nodes) IN
         R(st, IF w = "ok" THEN <<1, a[2]>> ELSE IF w = "refused" THEN <<0, 0>> ELSE <<-98>>)
    [] ev.op = "std" -> R(st, IF StdOk(a) THEN <<1, 1>> ELSE <<0, 0>>)
    [] ev.op = "clip" -> R(st, ClipObs(a))
    [] ev.op = "pass" -> R(st, PassObs(a))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = <<-98>> \/ r.res = ev.res
===========================================================================
