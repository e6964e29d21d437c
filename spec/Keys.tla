------------------------------- MODULE Keys ---------------------------------
(* Key texts, as sequences of tokens: / building meter elec gas - blank and    *)
(* the digits.                                                                 *)
EXTENDS Codes
Slash == 1  Building == 2  Meter == 3  Elec == 4  Gas == 5  Minus == 6  Blank == 7
IsDigit(x) == x \in 10..19

RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ s[1] = Slash THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] = Slash THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF s[1] = Slash THEN <<cur>> \o Split(Tail(s), <<>>)
                 ELSE Split(Tail(s), Append(cur, s[1]))
RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0 ELSE 10 * Number(SubSeq(ds, 1, Len(ds) - 1)) + (ds[Len(ds)] - 10)
\* a word followed by a positive number
Numbered(seg, word) == /\ Len(seg) >= 2 /\ seg[1] = word /\ \A i \in 2..Len(seg) : IsDigit(seg[i])
                       /\ Number(Tail(seg)) >= 1
Name(seg) == seg # <<>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<10 + n>> ELSE Digits(n \div 10) \o <<10 + (n % 10)>>

\* well formed: buildingN, buildingN/utility, buildingN/utility/meterM
Parse(s) ==
  LET p == Split(Strip(s), <<>>) IN
  IF ~Numbered(p[1], Building) \/ Len(p) > 3 \/ (Len(p) >= 2 /\ ~(Name(p[2]) /\ ~(p[2][1] = Meter /\ Len(p) = 2)))
     \/ (Len(p) = 3 /\ ~Numbered(p[3], Meter))
  THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, b |-> Number(Tail(p[1])), u |-> IF Len(p) >= 2 THEN p[2] ELSE <<>>,
        m |-> IF Len(p) = 3 THEN Number(Tail(p[3])) ELSE 0]
\* the canonical text of a location; a meter without a utility is an electricity meter
Text(k) == <<Slash, Building>> \o Digits(k.b) \o
           (IF k.m = 0 THEN <<>> ELSE <<Slash>> \o (IF k.u = <<>> THEN <<Elec>> ELSE k.u) \o <<Slash, Meter>> \o Digits(k.m))
Make(b, m) == IF b < 1 \/ (m # 777 /\ m < 1) THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, b |-> b, u |-> <<>>, m |-> IF m = 777 THEN 0 ELSE m]
Obs(k) == IF k.ok THEN <<k.b, k.m>> \o Text(k) ELSE OtherErr

\* joining parts (separated by 99): slashes around a part do not matter, nor do empty parts
RECURSIVE Parts(_, _)
Parts(a, cur) == IF a = <<>> THEN <<cur>>
                 ELSE IF a[1] = 99 THEN <<cur>> \o Parts(Tail(a), <<>>) ELSE Parts(Tail(a), Append(cur, a[1]))
Join(ps) == LET q == SelectSeq([i \in 1..Len(ps) |-> Strip(ps[i])], LAMBDA x : x # <<>>)
            IN IF q = <<>> THEN <<Slash>> ELSE Flat([i \in 1..Len(q) |-> <<Slash>> \o q[i]])

InitSt(a) == <<>>
Apply(st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "parse" -> R(st, Obs(Parse(a)))
    [] ev.op = "make" -> R(st, Obs(Make(a[1], a[2])))
    [] ev.op = "join" -> R(st, Join(Parts(a, <<>>)))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
=============================================================================
