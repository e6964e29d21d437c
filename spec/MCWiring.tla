------------------------------ MODULE MCWiring ------------------------------
(* Every way of wiring four meters, with a second building of the same numbers *)
EXTENDS Group, Json
CONSTANTS Kinds, Nests
VARIABLES st, raw, job, past
\* how a meter is wired: 100 site meter, 101 disabled site meter, otherwise 'submeter_of'
Meter(i, k) == IF k >= 100 THEN <<i, 1, 777, k - 100, 0, 1>> ELSE <<i, 0, IF k = 99 THEN 777 ELSE k, 0, 0, 1>>
Init == \E k \in [1..4 -> Kinds], n \in Nests :
          /\ \A i \in 1..4 : k[i] # i
          /\ n = 1 => k[3] < 100 /\ k[4] < 100
          /\ raw = <<1, 1, 4>> \o Meter(1, k[1]) \o Meter(2, k[2]) \o Meter(3, k[3]) \o Meter(4, k[4])
                   \o (IF n = 1 THEN <<1, 1, 1, 0, 2, 3, 4>> ELSE <<1, 1, 1, 0, 1, 3>>)
                   \o <<1, 2, 2, 1, 1, 777, 0, 0, 1, 3, 0, 1, 0, 0, 1, 0>>
          /\ st = InitSt(raw) /\ job = <<>> /\ past = <<>>
Ask(o, a) == job' = <<o, a>>
AskAny == UNCHANGED <<st, past>> /\
   (Ask("wiring", <<1>>) \/ Ask("downstream", <<1>>) \/ \E i \in 1..4 : Ask("upstream", <<1, i>>))
Change == past = <<>> /\ UNCHANGED job /\ \E o \in {"altmains", "reload"} :
            (o = "altmains" => CanSwap(st[1])) /\ past' = <<[op |-> o, a |-> <<1>>, res |-> <<1>>]>>
            /\ st' = Apply(st, [op |-> o, a |-> <<1>>]).st
Next == job = <<>> /\ UNCHANGED raw /\ (AskAny \/ Change)
Res == Apply(st, [op |-> job[1], a |-> job[2]]).res
W == Wired(st[1])
\* every meter but the site meters hangs below exactly one node of its own building
OneParent == (job # <<>> /\ job[1] = "wiring" /\ ~IsExc(Res)) =>
   /\ {Code(W[k]) : k \in 1..Len(W)} \cup {Code(m) : m \in {Flat(Members(st[1]))[k] : k \in 1..Len(Flat(Members(st[1])))}} \subseteq 10101..10104
   /\ \A k \in 1..Len(W) : Codes_(Up(st[1], W[k])) # {} /\ Codes_(Up(st[1], W[k])) \subseteq 10101..10104 /\ W[k].site = 0
DownIsChildren == (job # <<>> /\ job[1] = "downstream" /\ ~IsExc(Res)) =>
   \A k \in 1..Len(W) : LET u == Codes_(Up(st[1], W[k])) IN
      (u \notin {{Code(W[j])} : j \in 1..Len(W)}) <=> \E i \in 1..Len(Res) : Res[i] = Code(W[k])
SwapTwice == CanSwap(st[1]) /\ CanSwap(Swap(st[1])) => Swap(Swap(st[1])) = st[1]
Emit == job # <<>> => PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>]>> \o past \o <<[op |-> job[1], a |-> job[2], res |-> Res]>>))
===========================================================================
