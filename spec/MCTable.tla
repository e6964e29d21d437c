------------------------------ MODULE MCTable ------------------------------
(* Small tables of true and predicted readings with a column per appliance.  *)
EXTENDS Metrics, Json
CONSTANTS Truths, Preds
VARIABLES raw, st
\* three appliances, two of which share a label
Columns == {<<11>>, <<11, 14>>, <<12, 11>>, <<14, 11>>, <<11, 12>>}
V(c) == IF c = 777 THEN NaN ELSE c
Table(cols, ts, f) == [i \in 1..Len(ts) |-> <<ts[i]>> \o [j \in 1..Len(cols) |-> V(f[i][j])]]
Init == \E gc \in Columns, pc \in Columns, tp \in {<<1, 2>>, <<2, 3>>, <<2>>} :
        \E g \in [1..2 -> [1..Len(gc) -> Truths]], p \in [1..Len(tp) -> [1..Len(pc) -> Preds]] :
          /\ raw = <<3, Len(gc), Len(pc), 2, Len(tp)>> \o gc \o pc \o Flat(Table(gc, <<1, 2>>, g)) \o Flat(Table(pc, tp, p))
          /\ st = InitSt(raw)
Next == FALSE /\ UNCHANGED <<raw, st>>
Swapped(t) == IF Len(t.ids) # 2 THEN t
              ELSE [ids |-> <<t.ids[2], t.ids[1]>>, rows |-> [i \in 1..Len(t.rows) |-> <<t.rows[i][1], t.rows[i][3], t.rows[i][2]>>]]
\* the order of the columns of the prediction is of no consequence, and a perfect prediction has no error
AnyOrder == \A id \in {st.g.ids[j] : j \in 1..Len(st.g.ids)} :
              /\ Listed(st.g, st.p) = Listed(st.g, Swapped(st.p))
              /\ (\E j \in 1..Len(st.p.ids) : st.p.ids[j] = id) => Matched(st.g, st.p, id) = Matched(st.g, Swapped(st.p), id)
PerfectTable == \A pretty \in {0, 1} :
                  LET s == [k |-> 3, g |-> st.g, p |-> Swapped(st.g)]
                      ks == SelectSeq([k \in 1..Len(st.g.ids) |-> k], LAMBDA k : Matched(st.g, st.g, st.g.ids[k]) # <<>>)
                  IN RmseOK(s, pretty, Flat([k \in 1..Len(ks) |-> <<Labelled(st.g.ids, ks[k], pretty), 0>>]))
Emit == PrintT(ToJson(<<[op |-> "begin", a |-> raw, res |-> <<>>], [op |-> "table", a |-> <<raw[Len(raw)] % 2>>, res |-> <<>>],
                        [op |-> "table", a |-> <<1>>, res |-> <<>>]>>))
=============================================================================
