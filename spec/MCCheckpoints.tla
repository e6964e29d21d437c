---------------------------- MODULE MCCheckpoints ----------------------------
(* Several models in one directory make checkpoints and clear their own.       *)
EXTENDS Checkpoints, Json
CONSTANTS MaxFiles, MaxSteps
VARIABLES raw, st, log
vars == <<raw, st, log>>
Names == {<<1>> \o Ext, <<2>> \o Ext, <<1, 1>> \o Ext, <<1, 2, 7, 1>> \o Ext, <<2, 1>> \o Ext, Ext, <<1>>, <<1, 3, 6, 5>>,
          <<1>> \o Ext \o <<3, 1>>, <<1, 4, 5>>, <<2, 7, 1>> \o Ext}
Prefixes == {<<None>>, <<1>>, <<1, 2>>, <<2>>, <<>>, <<1, 3>>}
E(k, n) == <<k, Len(n)>> \o n
Init == \E n \in 0..MaxFiles : \E f \in [1..n -> Names] : \E k \in [1..n -> 1..4] :
          /\ \A i, j \in 1..n : i # j => f[i] # f[j]
          /\ \A i \in 1..n : k[i] # 1 => i = 1          \* at most one entry that is not a plain file
          /\ raw = Flat([i \in 1..n |-> E(k[i], f[i])]) /\ st = InitSt(raw) /\ log = <<>>
Do(op, a) == LET r == Apply(st, [op |-> op, a |-> a]) IN
             /\ st' = r.st /\ log' = Append(log, [op |-> op, a |-> a, res |-> r.res]) /\ raw' = raw
Clear == Len(log) < MaxSteps /\ \E p \in Prefixes : Do("clear", p)
Create == log # <<>> /\ Len(log) < MaxSteps /\ Do("create", E(1, <<1, 2>> \o Ext))
Next == Clear \/ Create
Last == log[Len(log)]
\* after clearing, none of the model's files are left, and everything else is
Complete == log # <<>> /\ Last.op = "clear" /\ Last.a # <<None>> => \A k \in 1..Len(st) : ~Mine(st[k], Last.a)
OthersSurvive == log # <<>> /\ Len(log) = 1 => \A k \in 1..Len(InitSt(raw)) :
   LET e == InitSt(raw)[k] IN (Last.op # "clear" \/ Last.a = <<None>> \/ ~Mine(e, Last.a)) => \E j \in 1..Len(st) : st[j] = e
Emit == Len(log) = MaxSteps => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>]>> \o log))
=============================================================================
