------------------------------ MODULE MCLoad ------------------------------
(* Every small load: tables, windows, section lists, chunk sizes.          *)
EXTENDS Load, Json
CONSTANTS Kind, MaxT, MaxChunk, MaxSecs
VARIABLES st, cfg, k, got
vars == <<st, cfg, k, got>>

T == 0..MaxT
Tables == {SortedSeq(X) : X \in (SUBSET T) \ {{}}}
Row(ts, i) == <<ts[i], 10 * i + 1, 10 * i + 2>>
Table(ts) == [i \in 1..Len(ts) |-> Row(ts, i)]
Wins == {<<NegInf, PosInf>>, <<1, PosInf>>, <<NegInf, MaxT - 1>>, <<1, MaxT - 1>>}
Ends == T \cup {MaxT + 1, PosInf}
SecsOne == {<<s, e, i>> \in (T \cup {NegInf}) \X Ends \X {0, 1} :
               /\ (s = NegInf \/ e = PosInf \/ s < e) /\ (i = 1 => e \in {MaxT - 1, MaxT})}
SecsTwo == {<<a, b, 0, b, d, 0>> : a \in {NegInf, 0}, b \in 1..(MaxT - 1), d \in {MaxT, PosInf}}
             \cup {<<a, a + 1, 0, a + 2, a + 4, 0>> : a \in 0..(MaxT - 2)}
SecLists == {<<>>} \cup SecsOne \cup (IF MaxSecs > 1 THEN SecsTwo ELSE {})

Init == \E ts \in Tables, w \in Wins, secs \in SecLists, n \in 1..MaxChunk :
          \* columns and look-ahead follow from the rest, to keep the space small
          LET c == (Len(ts) + n + Len(secs)) % 4
              la == (Len(ts) + w[1] + n) % 3
          IN /\ cfg = [ts |-> ts, w |-> w, secs |-> secs, n |-> n, c |-> c, la |-> la]
             /\ st = [kind |-> Kind, tab |-> Table(ts), win |-> Frame(w[1], w[2], FALSE, FALSE),
                      todo |-> <<>>, cols |-> 0, la |-> 0]
             /\ k = 0 /\ got = <<>>

Begin == k = 0 /\ k' = 1 /\ got' = got /\ cfg' = cfg
         /\ st' = Apply(st, [op |-> "open", a |-> <<cfg.n, cfg.c, cfg.la>> \o cfg.secs]).st
Deliver == /\ k = 1 /\ st.todo # <<>>
           /\ LET r == Apply(st, [op |-> "next", a |-> <<>>]) IN
              st' = r.st /\ got' = Append(got, <<Head(st.todo), r.res>>)
           /\ UNCHANGED <<cfg, k>>
Done == k = 1 /\ st.todo = <<>> /\ k' = 2 /\ UNCHANGED <<cfg, st, got>>
Next == Begin \/ Deliver \/ Done

(* ---- laws: stated without reference to how chunks are cut ---- *)
TheSecs == IF cfg.secs = <<>> THEN <<Open>> ELSE Secs(cfg.secs, 1)
InWin(i, f) == st.tab[i][1] \in Instants(Inter(st.win, f), T)
Wanted == Flat([j \in 1..Len(TheSecs) |-> SelectSeq([i \in 1..Len(st.tab) |-> i], LAMBDA i : InWin(i, TheSecs[j]))])
\* the rows delivered, a row that repeats the last one of the previous chunk being the shared boundary row
RECURSIVE Join(_, _)
Join(acc, cs) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs)
           rows == [i \in 1..(c.hi - c.lo + 1) |-> c.lo + i - 1]
           new == IF rows # <<>> /\ acc # <<>> /\ acc[Len(acc)] = rows[1] THEN Tail(rows) ELSE rows
       IN Join(acc \o new, Tail(cs))
Chunks == [i \in 1..Len(got) |-> got[i][1]]
ExactRows == k = 2 => Join(<<>>, Chunks) = Wanted
SizeBound == \A i \in 1..Len(got) : Chunks[i].hi - Chunks[i].lo <= cfg.n - Kind
OneBoundaryRow == \A i \in 1..(Len(got) - 1) :
   LET a == Chunks[i] b == Chunks[i + 1] IN (a.data /\ b.data /\ b.lo <= a.hi) => b.lo = a.hi
SpansTile == (k = 2 /\ Kind = 0 /\ Len(TheSecs) = 1) =>
   \A i \in 1..(Len(got) - 1) : Chunks[i].e = Chunks[i + 1].s
NoEmptyChunk == Kind = 1 => \A i \in 1..Len(got) : Chunks[i].data
NoRepeat == (Kind = 1 /\ Len(TheSecs) = 1) => \A i, j \in 1..Len(got) : i < j => Chunks[i].hi < Chunks[j].lo
SpanHoldsRows == \A i \in 1..Len(got) :
   LET c == Chunks[i] IN c.data => (c.s <= st.tab[c.lo][1] /\ st.tab[c.hi][1] <= c.e)

Tab == <<Kind>> \o Flat(Table(cfg.ts))
Ev(o, a, r) == [op |-> o, a |-> a, res |-> r]
Emit == k = 2 => PrintT(ToJson(
   <<Ev("begin", Tab, <<>>), Ev("window", cfg.w, <<0>>),
     Ev("open", <<cfg.n, cfg.c, cfg.la>> \o cfg.secs, <<0>>)>>
   \o [i \in 1..Len(got) |-> Ev("next", <<>>, got[i][2])]
   \o <<Ev("next", <<>>, <<-1>>)>>
   \o (IF Len(cfg.ts) > 1 THEN <<Ev("frame", <<>>, Apply(st, [op |-> "frame", a |-> <<>>]).res)>> ELSE <<>>)))
===========================================================================
