------------------------------ MODULE MCSteady ------------------------------
(* Steady states of every short power series. *)
EXTENDS Hart, Json
CONSTANTS N, Vals
VARIABLES st, rows
Init == \E n \in 1..N : \E v \in [1..n -> Vals] :
          st = InitSt(<<2, 15, 70, 1>>) /\ rows = [i \in 1..n |-> <<i, <<v[i]>>>>]
Next == FALSE /\ UNCHANGED <<st, rows>>
X == States(rows, 15, 70, 1)
V(i) == rows[i][2][1]
\* an event starts where consecutive readings differ by more than the tolerance
AtJump == \A k \in 1..Len(X.out) : LET t == X.out[k].at IN
            (t > 1 /\ Abs(V(t) - V(t - 1)) > 15) \/ (t = 1 /\ V(1) <= 70)
Ordered == \A j, k \in 1..Len(X.out) : j < k => X.out[j].at < X.out[k].at
\* its size is the change of level, which exceeds the noise, and the level is the mean of a
\* run of readings, consecutive ones within the tolerance, that ends before the next event
Sized == \A k \in 1..Len(X.out) : Big(X.out[k].new, X.out[k].old, 70, 1)
IsLevel(lv, from, to) == \E i, j \in from..to : /\ i <= j /\ lv.n = j - i + 1
   /\ lv.s[1] = SumSeq([x \in 1..(j - i + 1) |-> V(i + x - 1)])
   /\ \A x \in (i + 1)..j : Abs(V(x) - V(x - 1)) <= 15
Means == \A k \in 1..Len(X.out) : IsLevel(X.out[k].new, X.out[k].at, IF k < Len(X.out) THEN X.out[k + 1].at - 1 ELSE Len(rows))
Old == \A k \in 1..Len(X.out) : X.out[k].at > 1 =>
        (X.out[k].old = Level0(1) \/ IsLevel(X.out[k].old, 1, X.out[k].at - 1))
\* a series that never jumps has no events but a lone low start cannot hide one
Quiet == (\A i \in 2..Len(rows) : Abs(V(i) - V(i - 1)) <= 15) => X.out = <<>> \/ V(1) <= 70
A == Flat([i \in 1..Len(rows) |-> <<i, V(i)>>])
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> <<2, 15, 70, 1>>, res |-> <<>>],
                        [op |-> "states", a |-> A, res |-> Apply(st, [op |-> "states", a |-> A]).res]>>))
=============================================================================
