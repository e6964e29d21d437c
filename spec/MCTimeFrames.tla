-------------------------- MODULE MCTimeFrames ---------------------------
(* Exhaustive behaviours of one frame object and of the list operations,  *)
(* with the denotational laws checked in every state.                     *)
EXTENDS TimeFrames, Json
CONSTANTS MaxT, MaxLen
VARIABLES st, hist
vars == <<st, hist>>

T == 0..MaxT
Starts == T \cup {NegInf}
Ends == T \cup {PosInf}
Others == {<<s, e, em, inc>> \in Starts \X Ends \X {0, 1} \X {0, 1} :
             /\ Legal(s, e)
             /\ em = 1 => (s = NegInf /\ e = PosInf /\ inc = 0)}

Do(o, a) ==
  LET r == Apply(st, [op |-> o, a |-> a]) IN
  /\ st' = r.st
  /\ hist' = Append(hist, [op |-> o, a |-> a, res |-> r.res])

Init == st = Open /\ hist = <<>>
Room == Len(hist) < MaxLen

New        == Len(hist) = 0 /\ \E s \in Starts, e \in Ends : Do("new", <<s, e>>)
Later      == Room /\ Len(hist) > 0
Final      == Len(hist) = MaxLen - 1
SetStart   == Later /\ ~st.em /\ \E s \in Starts : Do("set_start", <<s>>)
SetEnd     == Later /\ ~st.em /\ \E e \in Ends : Do("set_end", <<e>>)
Enable     == Later /\ \E b \in {0, 1} : Do("enable", <<b>>)
IncludeEnd == Later /\ \E b \in {0, 1} : Do("include_end", <<b>>)
Clear      == Later /\ Do("clear", <<>>)
Intersect  == Later /\ \E o \in Others : Do("inter", o)
RIntersect == Later /\ \E o \in Others : Do("rinter", o)
Pure       == Final /\ \E o \in Others : Do("inter_pure", o)
Overlap    == Final /\ \E o \in Others : Do("overlap", o)
Slice      == Final /\ Do("slice", SortedSeq(T))
Ask        == Final /\ \E o \in {"delta", "truth", "copy"} : Do(o, <<>>)
RoundTrip  == Final /\ ~st.em /\ Do("roundtrip", <<>>)
Equal      == Final /\ \E o \in Others : Do("eq", o)
Next == New \/ SetStart \/ SetEnd \/ Enable \/ IncludeEnd \/ Clear \/ Intersect
        \/ RIntersect \/ Pure \/ Overlap \/ Slice \/ Ask \/ RoundTrip \/ Equal

(* ---- laws ---- *)
Lo == -2
Hi == MaxT + 2
NeverInverted == st.em \/ (Legal(S(st), E(st)) /\ Legal(st.s, st.e))
InterIsSetIntersection ==
  \A o \in Others :
    LET g == Arg(o, 1) r == Inter(st, g) IN
    /\ Cells(r, Lo, Hi) = Cells(st, Lo, Hi) \cap Cells(g, Lo, Hi)
    /\ r.em <=> (Cells(st, Lo, Hi) \cap Cells(g, Lo, Hi) = {})
    /\ r.em \/ Instants(r, T) \subseteq (Instants(st, T) \cup Instants(g, T))
InterLaws ==
  \A o \in Others :
    LET g == Arg(o, 1) IN
    /\ SEObs(Inter(st, g)) = SEObs(Inter(g, st))
    /\ ~st.em => SEObs(Inter(st, st)) = SEObs(st)
    /\ SEObs(Inter(Inter(st, g), g)) = SEObs(Inter(st, g))
Emit == Len(hist) = MaxLen => PrintT(ToJson(hist))
==========================================================================
