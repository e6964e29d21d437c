------------------------------ MODULE Columns ------------------------------
(* Which recorded columns a request for measurements selects.                *)
(* A column is 10 * quantity + AC type (see Energy); st is the set of        *)
(* recorded columns.                                                         *)
EXTENDS Codes
Best == 9
Invalid == 8
Q(c) == c \div 10
AC(c) == c % 10
Range(s) == {s[i] : i \in 1..Len(s)}

\* AC types in order of preference are 1, 2, 3
BestOf(acs) == IF acs \cap {1, 2, 3} = {} THEN 0 ELSE SetMin(acs \cap {1, 2, 3})
BestCols(cols, qs) == {c \in cols : Q(c) \in qs /\ AC(c) # 0 /\ AC(c) = BestOf({AC(d) : d \in {x \in cols : Q(x) = Q(c)}})}

\* qs, acs: sequences; <<>> means not asked for
Select(cols, qs, acs) ==
  IF qs = <<>> /\ acs = <<>> THEN SortedSeq(cols)
  ELSE IF Invalid \in Range(qs) \cup Range(acs) THEN OtherErr
  ELSE LET sel == IF acs = <<Best>>
                  THEN BestCols(cols, IF qs = <<>> THEN {Q(c) : c \in cols} ELSE Range(qs))
                  ELSE {c \in cols : (qs = <<>> \/ Q(c) \in Range(qs)) /\ (acs = <<>> \/ AC(c) \in Range(acs))}
       IN IF sel = {} THEN OtherErr ELSE SortedSeq(sel)

ACTypes(cols, qs) == IF Invalid \in Range(qs) THEN ValueErr
                     ELSE SortedSeq({AC(c) : c \in {x \in cols : Q(x) \in Range(qs)}} \ {0})
\* the best available type, preferably one the mains record too
SelectBest(avail, mains) ==
  LET both == avail \cap mains IN
  IF avail \cap {1, 2, 3} = {} THEN KeyErr
  ELSE IF both \cap {1, 2, 3} # {} THEN <<BestOf(both)>> ELSE <<BestOf(avail)>>

InitSt(a) == Range(a)
Apply(st, ev) ==
  LET a == ev.a IN
  \* load: number of quantities, the quantities, the AC types
  CASE ev.op = "load" -> R(st, Select(st, SubSeq(a, 2, 1 + a[1]), SubSeq(a, 2 + a[1], Len(a))))
    \* columns: quantity and AC type given as well (0: no), then the columns
    [] ev.op = "columns" ->
         LET cs == SubSeq(a, 3, Len(a)) IN
         R(st, IF a[1] # 0 \/ a[2] # 0 THEN ValueErr
               ELSE IF Range(cs) \subseteq st THEN SortedSeq(Range(cs)) ELSE OtherErr)
    [] ev.op = "actypes" -> R(st, ACTypes(st, a))
    [] ev.op = "quantities" -> R(st, SortedSeq({Q(c) : c \in st}))
    [] ev.op = "available" -> R(st, SortedSeq(st))
    \* best: number of available types, the types, then those of the mains
    [] ev.op = "best" -> R(st, SelectBest(Range(SubSeq(a, 2, 1 + a[1])),
                                          IF Len(a) = 1 + a[1] THEN {1, 2, 3} ELSE Range(SubSeq(a, 2 + a[1], Len(a)))))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
