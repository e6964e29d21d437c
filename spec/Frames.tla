--------------------------- MODULE Frames -----------------------------
(* Time frames: half-open spans of time, possibly open-ended, possibly    *)
(* empty, possibly disabled, possibly including their last instant.       *)
(*                                                                        *)
(* State: one frame object, mutated through its public operations; lists  *)
(* of frames are passed to the list operations.                           *)
EXTENDS Codes

Frame(s, e, em, inc) == [s |-> s, e |-> e, em |-> em, inc |-> inc, on |-> TRUE]
Open == Frame(NegInf, PosInf, FALSE, FALSE)
Void == Frame(NegInf, PosInf, TRUE, FALSE)

\* what a disabled frame shows: an unbounded frame
S(f) == IF f.on THEN f.s ELSE NegInf
E(f) == IF f.on THEN f.e ELSE PosInf

Legal(s, e) == s = NegInf \/ e = PosInf \/ s < e

(* ---------------- denotation: the set of instants ---------------------- *)
(* cells: unit spans [t, t+1); instants: the end points that belong        *)
Cells(f, lo, hi) == IF f.em THEN {} ELSE {t \in lo..hi : S(f) <= t /\ t < E(f)}
Instants(f, ts) == IF f.em THEN {}
                   ELSE {t \in ts : S(f) <= t /\ (t < E(f) \/ (f.inc /\ t = E(f)))}

(* ---------------- operations ------------------------------------------ *)
\* The last instant is governed by the frame which supplies the end
\* (by the argument when both end together).
Inter(f, g) ==
  IF f.em \/ g.em THEN Void
  ELSE LET s == Max2(S(f), S(g))
           e == Min2(E(f), E(g))
           inc == IF e = E(g) THEN g.inc ELSE f.inc
       IN IF Legal(s, e) THEN Frame(s, e, FALSE, inc)
          ELSE Frame(NegInf, PosInf, TRUE, inc)

Hull(f, g) ==
  IF f.em THEN g ELSE IF g.em THEN f
  ELSE Frame(Min2(S(f), S(g)), Max2(E(f), E(g)), FALSE, FALSE)

Bounded(f) == ~f.em /\ S(f) # NegInf /\ E(f) # PosInf

\* f and g touch, or are separated by at most gap (bounded frames)
Adjacent(f, g, gap) ==
  /\ ~f.em /\ ~g.em
  /\ \/ S(g) - gap <= E(f) /\ E(f) <= S(g)
     \/ S(f) - gap <= E(g) /\ E(g) <= S(f)

RECURSIVE Pieces(_, _, _)
Pieces(s, e, d) == IF e - s <= d THEN << <<s, e>> >>
                   ELSE << <<s, s + d>> >> \o Pieces(s + d, e, d)

RECURSIVE MergeFrom(_, _, _)
MergeFrom(done, rest, gap) ==
  IF rest = <<>> THEN done
  ELSE LET last == done[Len(done)]
           h == Head(rest)
       IN IF Adjacent(h, last, gap)
          THEN MergeFrom([done EXCEPT ![Len(done)] = Hull(h, last)], Tail(rest), gap)
          ELSE MergeFrom(Append(done, h), Tail(rest), gap)
Merge(fs, gap) == IF fs = <<>> THEN <<>> ELSE MergeFrom(<<fs[1]>>, Tail(fs), gap)

RECURSIVE PairInter(_, _)
PairInter(fs, gs) ==
  IF fs = <<>> THEN <<>>
  ELSE LET row == [i \in 1..Len(gs) |-> Inter(Head(fs), gs[i])]
       IN SelectSeq(row, LAMBDA x : ~x.em) \o PairInter(Tail(fs), gs)

Delta(f) == IF f.em THEN 0 ELSE E(f) - S(f)

(* ---------------- observations ---------------------------------------- *)
FObs(f) == <<S(f), E(f), B(f.em), B(f.inc)>>
SEObs(f) == <<S(f), E(f), B(f.em)>>
ListObs(fs) == <<Len(fs)>> \o Flat([i \in 1..Len(fs) |-> SEObs(fs[i])])
DeltaObs(f) == IF f.em THEN <<0>> ELSE IF Bounded(f) THEN <<Delta(f)>> ELSE <<NaN>>

\* <<s, e, em, inc>> of an argument frame (4 integers from offset i)
Arg(a, i) == Frame(a[i], a[i + 1], a[i + 2] = 1, a[i + 3] = 1)
\* n frames of two integers each from offset i
Args2(a, i, n) == [k \in 1..n |-> Frame(a[i + 2 * (k - 1)], a[i + 2 * (k - 1) + 1], FALSE, FALSE)]


==========================================================================
