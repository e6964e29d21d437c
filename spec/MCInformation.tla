---------------------------- MODULE MCInformation ----------------------------
(* Every small pair of series, with the laws of the estimates.                 *)
EXTENDS Information, Json
CONSTANTS Xs, Ys, N, Most
VARIABLES raw, st, job
vars == <<raw, st, job>>
Init == /\ \E most \in Most : \E x \in [1..N -> Xs], y \in [1..N -> Ys] :
             /\ \A i \in 1..(N - 1) : x[i] <= x[i + 1]
             /\ raw = <<most, N>> \o x \o y
        /\ st = InitSt(raw) /\ job = <<>>
Ask == /\ job = <<>>
       /\ \E o \in {"entropy", "mutual"}, k \in 1..3, u \in {1, 2}, w \in {1, 2} :
            LET e == [op |-> o, a |-> <<w, k, u>>] IN
            /\ (u = 2 => k = 1)
            /\ Apply(st, e).res # <<-98>> /\ job' = e
       /\ UNCHANGED <<raw, st>>
Next == Ask
Res == Apply(st, job).res[1]
Near(a, b) == Abs(a - b) <= Tolerance
Twice(x) == [i \in 1..Len(x) |-> 2 * x[i]]
Moved(x) == [i \in 1..Len(x) |-> x[i] + 7]
\* mutual information is symmetric, does not change with the unit, and twice the spread is a bit more
Symmetric == job # <<>> /\ job.op = "mutual" /\ st.most >= N =>
               Mutual(st.x, st.y, job.a[2]) = Mutual(st.y, st.x, job.a[2])
Unitless  == job # <<>> /\ job.op = "mutual" /\ st.most >= N =>
               Mutual(Twice(st.x), Twice(st.y), job.a[2]) = Mutual(st.x, st.y, job.a[2])
OneBit    == job # <<>> /\ job.op = "entropy" /\ st.most >= N /\ Spread(st.x, job.a[2]) =>
               /\ Near(Entropy(Twice(st.x), job.a[2]), Entropy(st.x, job.a[2]) + 1000)
               /\ Entropy(Moved(st.x), job.a[2]) = Entropy(st.x, job.a[2])
PiecesWhole == Flat(Parts(st.x, st.most)) = st.x
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>],
                                      [op |-> job.op, a |-> job.a, res |-> <<Res>>]>>))
=============================================================================
