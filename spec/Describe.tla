------------------------------ MODULE Describe ------------------------------
(* What a group says about itself, and its counterpart in another dataset.     *)
(* The state adds to the loaded buildings the names given to meters and the    *)
(* appliances marked as dominant.  An appliance is known by its code           *)
(* dataset * 10000 + building * 100 + number in the list of its building.      *)
EXTENDS GroupCore
InitSt(a) == [w |-> InitG(a), names |-> {}, dom |-> {}]
AppCode(m, x) == m.d * 10000 + m.b * 100 + x.left
Marked(st, m) == SelectSeq(m.apps, LAMBDA x : AppCode(m, x) \in st.dom)
\* the appliance that dominates a meter: the one marked as such, otherwise the first (a sequence of at most one)
DomOf(st, m) == IF m.apps = <<>> THEN <<>> ELSE IF Marked(st, m) # <<>> THEN <<Marked(st, m)[1]>> ELSE <<m.apps[1]>>
NameOf(st, m) == LET s == {x \in st.names : x[1] = Code(m)} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[2]

(* ---- labels ---- *)
\* 1 'Site meter', 50 + name, 100 + type of appliance, 0 nothing
Pretty(st, m) == IF NameOf(st, m) # 0 THEN 50 + NameOf(st, m)
                 ELSE IF m.site = 1 THEN 1
                 ELSE IF DomOf(st, m) = <<>> THEN 0 ELSE 100 + DomOf(st, m)[1].t
\* the long label lists the appliances, those marked as dominant in capitals
Long(st, m) == IF m.site = 1 THEN (IF NameOf(st, m) # 0 THEN <<-98>> ELSE <<-1>>)
               ELSE IF NameOf(st, m) # 0 THEN <<-2, NameOf(st, m)>>
               ELSE <<Len(m.apps)>> \o Flat([k \in 1..Len(m.apps) |->
                      <<m.apps[k].t, m.apps[k].i, B(AppCode(m, m.apps[k]) \in st.dom)>>])
GroupLabel(st, mem) == SortedSeq({Pretty(st, mem[k]) : k \in 1..Len(mem)})
\* the label of each member, in the order of the least meter
Labels(st, g) == LET firsts == SortedSeq({SetMin(Codes_(g[k])) : k \in 1..Len(g)})
                     of(c) == SelectSeq(g, LAMBDA mem : SetMin(Codes_(mem)) = c)[1]
                     l(c) == GroupLabel(st, of(c))
                 IN Flat([k \in 1..Len(firsts) |-> <<Len(l(firsts[k]))>> \o l(firsts[k])])

(* ---- appliances of a group ---- *)
Pairs(g) == UNION {{<<j, k>> : k \in 1..Len(g[j])} : j \in 1..Len(g)}
Apps(g) == UNION {{<<AppCode(g[p[1]][p[2]], g[p[1]][p[2]].apps[x]), g[p[1]][p[2]].apps[x]>> :
                     x \in 1..Len(g[p[1]][p[2]].apps)} : p \in Pairs(g)}
DomApps(st, g) == UNION {{<<AppCode(g[p[1]][p[2]], DomOf(st, g[p[1]][p[2]])[x]), DomOf(st, g[p[1]][p[2]])[x]>> :
                     x \in 1..Len(DomOf(st, g[p[1]][p[2]]))} : p \in Pairs(g)}
AppCodes(s) == SortedSeq({x[1] : x \in s})
\* values of a key: 4 room, 7 type, 10 number of ancestors, 11 synonyms
Ancestors(t) == CASE t \in {1, 2} -> 3 [] t = 5 -> 1 [] OTHER -> 2
ValuesOf(x, f) == CASE f = 4 -> IF x.room = 0 THEN {} ELSE {x.room}
                    [] f = 7 -> {x.t}
                    [] f = 10 -> {Ancestors(x.t)}
                    [] OTHER -> IF x.t = 1 THEN {101} ELSE {}
KeyValues(s, f) == IF \E x \in s : x[2].t = 9 THEN <<-98>>          \* 9 is no known type
                   ELSE SortedSeq(UNION {ValuesOf(x[2], f) : x \in s})
\* the one appliance that dominates the members of a group: refused if there are several
OneDom(st, g) ==
  LET mine == {DomOf(st, g[p[1]][p[2]]) : p \in Pairs(g)}
      ds == {x[1] : x \in mine \ {<<>>}}
  IN IF <<>> \in mine /\ ds # {} THEN <<-98>>
     ELSE IF ds = {} THEN <<>>
     ELSE IF Cardinality({<<x.t, x.i>> : x \in ds}) > 1 THEN OtherErr
     ELSE <<(CHOOSE x \in ds : TRUE).t, (CHOOSE x \in ds : TRUE).i>>

(* ---- where ---- *)
Set2(s) == <<Cardinality(s)>> \o SortedSeq(s)
Where(g) == LET ms == {g[p[1]][p[2]] : p \in Pairs(g)}
            IN Set2({m.b : m \in ms}) \o Set2({m.d : m \in ms}) \o <<B(Cardinality({m.b : m \in ms}) > 1)>>
\* the meter upstream of every one of some meters of a building
Picked(bl, a, i) == [k \in 1..(Len(a) - i + 1) |-> MeterOf(bl, a[i + k - 1])]
UpAll(bl, ms) == LET bad == SelectSeq(ms, LAMBDA m : UpExc(bl, m) # <<>>)
                     ups == {Codes_(Up(bl, ms[k])) : k \in 1..Len(ms)}
                 IN IF bad # <<>> THEN UpExc(bl, bad[1])
                    ELSE IF Cardinality(ups) > 1 THEN OtherErr
                    ELSE Item(Up(bl, ms[1]))
Sorted(g) == LET s == {g[k][1].inst : k \in 1..Len(g)} IN
             IF \E k \in 1..Len(g) : Len(g[k]) > 1 THEN <<-98>> ELSE SortedSeq(s)

(* ---- the counterpart in another dataset ---- *)
Everyone(w) == Flat([k \in 1..Len(w) |-> w[k].ms])
There(w, d, m) == SelectSeq(Everyone(w), LAMBDA x : x.d = d /\ x.b = m.b /\ x.inst = m.inst)
Counterpart(w, d, g) ==
  IF \E p \in Pairs(g) : There(w, d, g[p[1]][p[2]]) = <<>> THEN KeyErr
  ELSE Coll([k \in 1..Len(g) |-> [j \in 1..Len(g[k]) |-> There(w, d, g[k][j])[1]]])
\* submeters of one group with the equal ones of another
Moved(mem, d) == {m.inst + 100 * m.b + 10000 * d : m \in {mem[k] : k \in 1..Len(mem)}}
Partner(h, d, mem) == SelectSeq(h, LAMBDA x : Codes_(x) = Moved(mem, d) /\ (Len(x) > 1) = (Len(mem) > 1))
Zipped(g, h) ==
  LET subs == Submeters(g)
      ds == {h[p[1]][p[2]].d : p \in Pairs(h)}
      d == CHOOSE x \in ds : TRUE
      firsts == SortedSeq({SetMin(Codes_(subs[k])) : k \in 1..Len(subs)})
      of(c) == SelectSeq(subs, LAMBDA mem : SetMin(Codes_(mem)) = c)[1]
  IN IF subs = <<>> THEN <<0>>
     ELSE IF Cardinality(ds) # 1 THEN <<-98>>
     ELSE IF \E k \in 1..Len(subs) : Partner(h, d, subs[k]) = <<>> THEN KeyErr
     ELSE <<Len(firsts)>> \o Flat([k \in 1..Len(firsts) |-> Item(of(firsts[k])) \o Item(Partner(h, d, of(firsts[k]))[1])])

(* ---- operations ---- *)
Mine(st, a) == MeterOf(st.w[a[1]], a[2])
Forget(st, d) == [st EXCEPT !.names = {x \in @ : x[1] \div 10000 # d}, !.dom = {x \in @ : x \div 10000 # d}]
Apply(st, ev) ==
  LET a == ev.a
      g == Grp(st.w, a[1])
  IN
  CASE ev.op = "rename" -> R([st EXCEPT !.names = {x \in @ : x[1] # Code(Mine(st, a))} \cup {<<Code(Mine(st, a)), a[3]>>}], <<1>>)
    [] ev.op = "mark" -> IF a[3] > Len(Mine(st, a).apps) THEN R(st, <<0>>)
                         ELSE R([st EXCEPT !.dom = @ \cup {AppCode(Mine(st, a), Mine(st, a).apps[a[3]])}], <<1>>)
    \* an appliance may also be said not to be dominant, which is the same as saying nothing
    [] ev.op = "unmark" -> IF a[3] > Len(Mine(st, a).apps) THEN R(st, <<0>>)
                           ELSE R([st EXCEPT !.dom = @ \ {AppCode(Mine(st, a), Mine(st, a).apps[a[3]])}], <<1>>)
    [] ev.op = "dominant" -> LET d == DomOf(st, Mine(st, a)) IN R(st, IF d = <<>> THEN <<>> ELSE <<AppCode(Mine(st, a), d[1])>>)
    [] ev.op = "dominants" -> R(st, AppCodes(DomApps(st, g)))
    [] ev.op = "onedom" -> R(st, OneDom(st, [k \in 1..(Len(a) - 1) |-> <<MeterOf(st.w[a[1]], a[k + 1])>>]))
    [] ev.op = "issite" -> R(st, <<B(\E k \in 2..Len(a) : MeterOf(st.w[a[1]], a[k]).site = 1)>>)
    [] ev.op = "appliances" -> R(st, AppCodes(Apps(g)))
    [] ev.op = "values" -> R(st, KeyValues(IF a[3] = 1 THEN DomApps(st, g) ELSE Apps(g), a[2]))
    [] ev.op = "label" -> R(st, IF a[3] = 1 THEN <<Pretty(st, Mine(st, a))>> ELSE Long(st, Mine(st, a)))
    [] ev.op = "labels" -> R(st, Labels(st, g))
    [] ev.op = "where" -> R(st, Where(g))
    [] ev.op = "upall" -> R(st, UpAll(st.w[a[1]], Picked(st.w[a[1]], a, 2)))
    [] ev.op = "sorted" -> R(st, Sorted(g))
    [] ev.op = "counterpart" -> R(st, Counterpart(st.w, a[2], g))
    [] ev.op = "zip" -> R(st, Zipped(g, Grp(st.w, a[2])))
    [] ev.op = "elecs" -> R(st, SortedSeq({st.w[k].b : k \in {j \in 1..Len(st.w) : st.w[j].d = a[1]}}))
    [] ev.op = "reload" -> R(Forget([st EXCEPT !.w = ApplyG(@, ev).st], st.w[a[1]].d), <<1>>)
    [] OTHER -> LET r == ApplyG(st.w, ev) IN R([st EXCEPT !.w = r.st], r.res)
Accepts(st, ev, r) == r.res = <<-98>> \/ r.res = ev.res
===========================================================================
