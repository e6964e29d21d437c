----------------------------- MODULE GroupCore -----------------------------
(* Buildings of one or more datasets loaded together: which meters a group     *)
(* holds, which meter a look-up or selection returns, and how meters are       *)
(* wired.  A meter is known by its code dataset * 10000 + building * 100 +     *)
(* instance.  A member of a group is a sequence of meters: one meter, or the   *)
(* several meters of an appliance with several supplies (a nested group).      *)
EXTENDS Codes
None == 777                            \* 'submeter_of' not given
Code(m) == m.d * 10000 + m.b * 100 + m.inst

(* ---- static knowledge ---- *)
Syn(t) == IF t = 101 THEN 1 ELSE t     \* 101 is another name of type 1
Cats(t) == CASE t \in {1, 2} -> {1, 11} [] t = 3 -> {2, 12} [] t = 4 -> {2, 11} [] t = 5 -> {3, 12} [] OTHER -> {}
Period(d, model) == 10 * d + model     \* each dataset describes its own devices
\* a device attribute that holds a list: the value 12 stands for the list of 1 and 2, in that order
Bands(model) == CASE model = 1 -> <<1, 2>> [] model = 2 -> <<2, 3>> [] OTHER -> <<3>>
HasBand(model, v) == IF v < 10 THEN \E k \in 1..Len(Bands(model)) : Bands(model)[k] = v ELSE Bands(model) = <<v \div 10, v % 10>>

(* ---- reading a building ---- *)
\* building number, dataset, number of meters, per meter (instance, site, submeter of, disabled, room, model),
\* number of appliances, per appliance (type, instance, room, number of meters, meters)
RECURSIVE ParseApps(_, _, _)
ParseApps(a, i, n) ==
  IF n = 0 THEN [apps |-> <<>>, next |-> i]
  ELSE LET k == a[i + 3]
           rest == ParseApps(a, i + 4 + k, n - 1)
       IN [apps |-> <<[t |-> a[i], i |-> a[i + 1], room |-> a[i + 2], left |-> n, ms |-> SubSeq(a, i + 4, i + 3 + k)]>> \o rest.apps,
           next |-> rest.next]
ParseOne(a, i) ==
  LET nm == a[i + 2]
      p == ParseApps(a, i + 4 + 6 * nm, a[i + 3 + 6 * nm])
      nest == SelectSeq(p.apps, LAMBDA x : Len(x.ms) > 1)
      \* an appliance on meter 0 is connected to every site meter in use
      siteOn(k) == a[i + 3 + 6 * (k - 1) + 1] = 1 /\ a[i + 3 + 6 * (k - 1) + 3] = 0
      appsOf(k) == SelectSeq(p.apps, LAMBDA x : (x.ms = <<0>> /\ siteOn(k))
                                                \/ \E j \in 1..Len(x.ms) : x.ms[j] = a[i + 3 + 6 * (k - 1)])
      mk(k) == LET o == i + 3 + 6 * (k - 1)
               IN [inst |-> a[o], b |-> a[i], d |-> a[i + 1], site |-> a[o + 1], sub |-> a[o + 2], dis |-> a[o + 3],
                   room |-> a[o + 4], per |-> Period(a[i + 1], a[o + 5]), apps |-> appsOf(k)]
      ms == [k \in 1..nm |-> mk(k)]
  IN [bld |-> [b |-> a[i], d |-> a[i + 1], ms |-> ms, nest |-> [k \in 1..Len(nest) |-> nest[k].ms],
               off |-> {ms[k].inst : k \in {j \in 1..nm : ms[j].dis = 1}}],
      next |-> p.next]
RECURSIVE Parse(_, _)
Parse(a, i) == IF i > Len(a) THEN <<>>
               ELSE LET p == ParseOne(a, i) IN <<p.bld>> \o Parse(a, p.next)
InitG(a) == Parse(a, 1)

(* ---- groups ---- *)
InNest(bl, inst) == \E k \in 1..Len(bl.nest) : \E j \in 1..Len(bl.nest[k]) : bl.nest[k][j] = inst
MeterOf(bl, inst) == LET s == SelectSeq(bl.ms, LAMBDA m : m.inst = inst) IN s[1]
Has(bl, inst) == \E k \in 1..Len(bl.ms) : bl.ms[k].inst = inst
Top(bl) == SelectSeq(bl.ms, LAMBDA m : ~InNest(bl, m.inst))
Members(bl) == LET on == SelectSeq(Top(bl), LAMBDA m : m.inst \notin bl.off)
               IN [k \in 1..Len(on) |-> <<on[k]>>]
                  \o [k \in 1..Len(bl.nest) |-> [j \in 1..Len(bl.nest[k]) |-> MeterOf(bl, bl.nest[k][j])]]
Disabled(bl) == LET off == SelectSeq(Top(bl), LAMBDA m : m.inst \in bl.off) IN [k \in 1..Len(off) |-> <<off[k]>>]
\* group g: building number g of the list, or (0) all of them together
Grp(st, g) == IF g > 0 THEN Members(st[g]) ELSE Flat([k \in 1..Len(st) |-> Members(st[k])])
Site(mem) == \E k \in 1..Len(mem) : mem[k].site = 1
Codes_(mem) == {Code(mem[k]) : k \in 1..Len(mem)}
\* projections
Item(mem) == <<Len(mem)>> \o SortedSeq(Codes_(mem))
Coll(g) == LET firsts == SortedSeq({SetMin(Codes_(g[k])) : k \in 1..Len(g)})
               of(c) == SelectSeq(g, LAMBDA mem : SetMin(Codes_(mem)) = c)[1]
           IN <<Len(firsts)>> \o Flat([k \in 1..Len(firsts) |-> Item(of(firsts[k]))])

(* ---- criteria: (field, value) pairs ---- *)
\* 1 instance, 2 building, 3 dataset, 4 room, 5 sample period, 6 site meter, 7 appliance type, 8 category, 9 bands (several
\* values: one of them, or - together with other criteria - all of them in order)
MeterSat(m, f, v) == CASE f = 1 -> m.inst = v [] f = 2 -> m.b = v [] f = 3 -> m.d = v
                       [] f = 4 -> m.room # 0 /\ m.room = v [] f = 5 -> m.per = v [] f = 6 -> m.site = 1 /\ v = 1
                       [] f = 9 -> HasBand(m.per - 10 * m.d, v)
                       [] OTHER -> FALSE
AppSat(m, x, f, v) == CASE f = 1 -> x.i = v [] f = 2 -> m.b = v [] f = 3 -> m.d = v
                        [] f = 4 -> x.room # 0 /\ x.room = v [] f = 7 -> Syn(v) = x.t [] f = 8 -> v \in Cats(x.t)
                        [] OTHER -> FALSE
Crits(a, i) == [k \in 1..((Len(a) - i + 1) \div 2) |-> <<a[i + 2 * (k - 1)], a[i + 2 * (k - 1) + 1]>>]
ByMeter(g, cr) == SelectSeq(g, LAMBDA mem : \E k \in 1..Len(mem) : \A c \in 1..Len(cr) : MeterSat(mem[k], cr[c][1], cr[c][2]))
ByApp(g, cr) == SelectSeq(g, LAMBDA mem : \E k \in 1..Len(mem) : \E x \in 1..Len(mem[k].apps) :
                   \A c \in 1..Len(cr) : AppSat(mem[k], mem[k].apps[x], cr[c][1], cr[c][2]))
OrRefuse(g) == IF g = <<>> THEN KeyErr ELSE Coll(g)
One(g) == IF Len(g) = 0 THEN KeyErr ELSE IF Len(g) > 1 THEN OtherErr ELSE Item(g[1])
\* one criterion with a list of values: members matching any of them, refused if some value matches nothing
AnyOf(sel(_), vs) == IF \E k \in 1..Len(vs) : sel(vs[k]) = <<>> THEN KeyErr
                     ELSE LET all == Flat([k \in 1..Len(vs) |-> sel(vs[k])]) IN Coll(all)

\* groups by a property of the dominant appliance of each member (the first one), in the order of its values; a group
\* holds every member with some such appliance
Dominant(mem) == IF mem[1].apps = <<>> THEN {} ELSE {mem[1].apps[1]}
GroupBy(g, f) ==
  LET val(x) == IF f = 4 THEN x.room ELSE x.t
      vs == SortedSeq({val(x) : x \in UNION {Dominant(g[k]) : k \in 1..Len(g)}} \ {0})
  IN IF \E k \in 1..Len(g) : \E x \in Dominant(g[k]) : x.t = 9 THEN <<-98>>   \* 9 is no known type
     ELSE <<Len(vs)>> \o Flat([k \in 1..Len(vs) |-> <<vs[k]>> \o Coll(ByApp(g, <<<<f, vs[k]>>>>))])

(* ---- mains ---- *)
MainsOf(g) == LET bs == {<<g[k][j].b, g[k][j].d>> : k \in 1..Len(g), j \in 1..1}
                  nums == {x[1] : x \in bs}
                  s == SelectSeq(g, Site)
              IN IF Cardinality(nums) > 1 THEN OtherErr
                 ELSE IF Cardinality(bs) > 1 THEN <<-98>>
                 ELSE Item(Flat(s))
Submeters(g) == SelectSeq(g, LAMBDA mem : ~Site(mem))

(* ---- look-up ---- *)
ByInt(g, i) == LET hit == Flat([k \in 1..Len(g) |-> SelectSeq(g[k], LAMBDA m : m.inst = i)])
               IN One([k \in 1..Len(hit) |-> <<hit[k]>>])
ById(g, i, b, d) ==
  IF i = 0 THEN LET sel == ByMeter(g, <<<<2, b>>, <<3, d>>>>) IN IF sel = <<>> THEN KeyErr ELSE MainsOf(sel)
  ELSE One(SelectSeq(g, LAMBDA mem : Len(mem) = 1 /\ mem[1].inst = i /\ mem[1].b = b /\ mem[1].d = d))
IdCodes(a, i) == {a[i + 3 * k] + 100 * a[i + 3 * k + 1] + 10000 * a[i + 3 * k + 2] : k \in 0..((Len(a) - i + 1) \div 3 - 1)}
ByIds(g, cs) == One(SelectSeq(g, LAMBDA mem : Len(mem) > 1 /\ Codes_(mem) = cs))
Pair(g, i, j) == LET x == ByInt(g, i) y == ByInt(g, j)
                 IN IF IsExc(x) THEN x ELSE IF IsExc(y) THEN y
                    ELSE <<2>> \o (IF x[2] < y[2] THEN x \o y ELSE y \o x)
\* a list of single meters (first) and one nested list of meters (rest, may be empty)
FromList(g, singles, nested) ==
  LET one(c) == SelectSeq(g, LAMBDA mem : Len(mem) = 1 /\ Code(mem[1]) = c)
      all == singles \cup nested
      same == SelectSeq(g, LAMBDA mem : Len(mem) > 1 /\ Codes_(mem) = nested)
  IN IF \E c \in singles : one(c) = <<>> THEN KeyErr
     ELSE IF nested = {} THEN LET s == SortedSeq(singles) IN Coll([k \in 1..Len(s) |-> one(s[k])[1]])
     ELSE IF same = <<>> /\ \E c \in nested : one(c) = <<>> THEN KeyErr
     ELSE LET s == SortedSeq(singles)
              n == SortedSeq(nested)
              grp == IF same # <<>> THEN same[1] ELSE [k \in 1..Len(n) |-> one(n[k])[1][1]]
          IN Coll([k \in 1..Len(s) |-> one(s[k])[1]] \o <<grp>>)

(* ---- wiring ---- *)
SiteMeters(bl) == SelectSeq(bl.ms, LAMBDA m : m.site = 1 /\ m.inst \notin bl.off)
\* upstream of a meter: exception or sequence of meters (none for a site meter)
UpExc(bl, m) == CASE m.site = 1 -> <<>>
                  [] m.sub = None -> ValueErr
                  [] m.sub < 0 -> ValueErr
                  [] m.sub = 0 -> <<>>
                  [] ~Has(bl, m.sub) -> KeyErr
                  [] OTHER -> <<>>
Up(bl, m) == IF m.site = 1 THEN <<>> ELSE IF m.sub = 0 THEN SiteMeters(bl) ELSE <<MeterOf(bl, m.sub)>>
UpObs(bl, m) == IF UpExc(bl, m) # <<>> THEN UpExc(bl, m) ELSE Item(Up(bl, m))
Wired(bl) == SelectSeq(Flat(Members(bl)), LAMBDA m : UpExc(bl, m) = <<>> => Up(bl, m) # <<>>)
Broken(bl) == SelectSeq(Wired(bl), LAMBDA m : UpExc(bl, m) # <<>>)
WiringObs(bl) ==
  IF Broken(bl) # <<>> THEN UpExc(bl, Broken(bl)[1])
  ELSE LET w == Wired(bl)
           cs == SortedSeq(Codes_(w))
           m(c) == SelectSeq(w, LAMBDA x : Code(x) = c)[1]
       IN <<Len(cs)>> \o Flat([k \in 1..Len(cs) |-> Item(Up(bl, m(cs[k]))) \o <<cs[k]>>])
Roots(bl) == LET w == Wired(bl) IN {Codes_(Up(bl, w[k])) : k \in 1..Len(w)} \ {{Code(w[k])} : k \in 1..Len(w)}
DownObs(bl) ==
  IF Broken(bl) # <<>> THEN UpExc(bl, Broken(bl)[1])
  ELSE IF Cardinality(Roots(bl)) # 1 THEN OtherErr
  ELSE LET root == CHOOSE r \in Roots(bl) : TRUE
           kids == SelectSeq(Wired(bl), LAMBDA m : Codes_(Up(bl, m)) = root)
       IN Coll([k \in 1..Len(kids) |-> <<kids[k]>>])

(* ---- operations ---- *)
Values(a, i) == SubSeq(a, i, Len(a))
Swap(bl) == LET on == {m \in {bl.ms[k] : k \in 1..Len(bl.ms)} : m.site = 1 /\ m.inst \notin bl.off}
                off == {m \in {bl.ms[k] : k \in 1..Len(bl.ms)} : m.site = 1 /\ m.inst \in bl.off}
            IN [bl EXCEPT !.off = (@ \ {m.inst : m \in off}) \cup {m.inst : m \in on}]
CanSwap(bl) == \E k \in 1..Len(bl.ms) : bl.ms[k].site = 1 /\ bl.ms[k].inst \in bl.off
Fresh(bl) == [bl EXCEPT !.off = {bl.ms[k].inst : k \in {j \in 1..Len(bl.ms) : bl.ms[j].dis = 1}}]
ApplyG(st, ev) ==
  LET a == ev.a
      g == Grp(st, a[1])
  IN
  CASE ev.op = "members" -> R(st, Coll(g))
    [] ev.op = "disabled" -> R(st, Coll(Disabled(st[a[1]])))
    [] ev.op = "mains" -> R(st, MainsOf(g))
    [] ev.op = "submeters" -> R(st, Coll(Submeters(g)))
    [] ev.op = "int" -> R(st, ByInt(g, a[2]))
    [] ev.op = "id" -> R(st, ById(g, a[2], a[3], a[4]))
    [] ev.op = "ids" -> R(st, ByIds(g, IdCodes(a, 3)))
    [] ev.op = "app" -> R(st, One(ByApp(g, <<<<7, a[2]>>, <<1, a[3]>>>>)))
    [] ev.op = "dict" -> R(st, One(ByApp(g, Crits(a, 2))))
    [] ev.op = "pair" -> R(st, Pair(g, a[2], a[3]))
    [] ev.op = "select" -> R(st, OrRefuse(ByMeter(g, Crits(a, 2))))
    [] ev.op = "selectapp" -> R(st, OrRefuse(ByApp(g, Crits(a, 2))))
    [] ev.op = "groupby" -> R(st, GroupBy(g, a[2]))
    [] ev.op = "selectany" -> R(st, AnyOf(LAMBDA v : ByMeter(g, <<<<a[2], v>>>>), Values(a, 3)))
    [] ev.op = "selectappany" -> R(st, AnyOf(LAMBDA v : ByApp(g, <<<<a[2], v>>>>), Values(a, 3)))
    [] ev.op = "union" -> LET x == ByMeter(g, <<<<a[2], a[3]>>>>) y == ByApp(g, <<<<a[4], a[5]>>>>)
                          IN R(st, IF x = <<>> \/ y = <<>> THEN KeyErr ELSE Coll(x \o y))
    [] ev.op = "equal" -> LET x == ByMeter(g, <<<<a[2], a[3]>>>>) y == ByApp(g, <<<<a[4], a[5]>>>>)
                          IN R(st, IF x = <<>> \/ y = <<>> THEN KeyErr
                                   ELSE <<B({Codes_(x[k]) : k \in 1..Len(x)} = {Codes_(y[k]) : k \in 1..Len(y)}), 1>>)
    [] ev.op = "fromlist" -> LET n == a[2] IN
                             R(st, FromList(g, IdCodes(SubSeq(a, 1, 2 + 3 * n), 3), IdCodes(a, 3 + 3 * n)))
    [] ev.op = "periods" -> LET all == Flat(g)
                                cs == SortedSeq(Codes_(all))
                                m(c) == SelectSeq(all, LAMBDA x : Code(x) = c)[1]
                            IN R(st, Flat([k \in 1..Len(cs) |-> <<cs[k], m(cs[k]).per>>]))
    [] ev.op = "buildings" -> R(st, SortedSeq({st[k].b : k \in {j \in 1..Len(st) : st[j].d = a[1]}}))
    [] ev.op = "upstream" -> R(st, UpObs(st[a[1]], MeterOf(st[a[1]], a[2])))
    [] ev.op = "wiring" -> R(st, WiringObs(st[a[1]]))
    [] ev.op = "downstream" -> R(st, DownObs(st[a[1]]))
    [] ev.op = "altmains" -> IF CanSwap(st[a[1]]) THEN R([st EXCEPT ![a[1]] = Swap(@)], <<1>>) ELSE R(st, OtherErr)
    [] ev.op = "reload" -> R([k \in 1..Len(st) |-> IF st[k].d = st[a[1]].d THEN Fresh(st[k]) ELSE st[k]], <<1>>)
    [] OTHER -> R(st, <<-99>>)
===========================================================================
