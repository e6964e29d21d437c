---------------------------- MODULE MCStatsCache ----------------------------
(* The cache as a mechanism: results of single sections are remembered under   *)
(* a key (dataset, building, meter, statistic, way of loading) and reused for  *)
(* any later request that contains the same section.  It must be invisible.    *)
EXTENDS StatsCache, Json
CONSTANTS MaxLen, Meters, NSec
VARIABLES st, cache, hist
vars == <<st, cache, hist>>

Raw == <<2, 1, 3>>
       \o <<1, 1, 1, 7>> \o <<0,5,1, 1,7,2, 2,9,3, 5,4,4, 6,8,5, 7,3,6, 8,2,7>>
       \o <<2, 1, 1, 4>> \o <<0,1,9, 2,2,8, 4,3,7, 9,4,6>>
       \o <<1, 1, 2, 5>> \o <<1,6,1, 2,6,2, 3,6,1, 4,6,2, 6,6,3>>
SecSeq == <<<<>>, <<0, 5, 0>>, <<0, 5, 0, 6, 8, 1>>, <<6, 8, 0>>, <<0, 5, 1>>, <<0, 5, 0, 5, 8, 0>>, <<10, 12, 0>>, <<0, 8, 0>>, <<2, 5, 0>>>>
SecLists == {SecSeq[i] : i \in 1..NSec}
Wins == {<<NegInf, PosInf>>, <<1, 7>>, <<0, 5>>}

(* ---- the mechanism ---- *)
Touch(secs) == \E j, k \in 1..Len(secs) : secs[j].e = secs[k].s
OneChunk(tab, f, size) == Len(SectionChunks(tab, Open, f, size)) = 1
Span2(f) == <<f.s, f.e>>
Ends(secs) == {secs[k].e : k \in {j \in 1..Len(secs) : secs[j].inc}}
Key(m, stat, opts, secs) == <<st.meters[m].d, st.meters[m].b, st.meters[m].i, stat, opts, Ends(secs)>>
Held(key) == IF key \in DOMAIN cache THEN cache[key] ELSE {}

\* result of one section on its own
Row(m, stat, opts, f) ==
  LET tab == st.meters[m].tab IN
  CASE stat = "energy" -> EnergyIn(tab, st.maxp, opts[2], <<f>>)
    [] stat = "good" -> GoodIn(tab, st.maxp, <<f>>)
    [] stat = "dropout" -> Dr!Stretches(tab, <<f>>, opts[1])
RowFor(m, stat, opts, f, key) ==
  LET hit == {r \in Held(key) : r[1] = Span2(f)} IN
  IF hit # {} THEN (CHOOSE r \in hit : TRUE)[2] ELSE Row(m, stat, opts, f)
Worth(stat, r) == stat = "dropout" \/ r # <<>>
NewRows(m, stat, opts, secs, key) ==
  {<<Span2(secs[k]), Row(m, stat, opts, secs[k])>> :
     k \in {j \in 1..Len(secs) : /\ OneChunk(st.meters[m].tab, secs[j], opts[1])
                                 /\ \A r \in Held(key) : r[1] # Span2(secs[j])
                                 /\ Worth(stat, Row(m, stat, opts, secs[j]))}}
Sum2(rows, ac) ==
  LET has == SelectSeq(rows, LAMBDA r : r # <<>>)
      part(x) == IF ac \in {0, x}
                 THEN <<x, SumSeq([k \in 1..Len(has) |-> LET r == has[k] IN IF r[1] = x THEN r[2] ELSE r[4]])>>
                 ELSE <<>>
  IN IF has = <<>> THEN <<>> ELSE part(1) \o part(3)
\* the result of a request, and the cache after it
Cached(m, stat, opts, secs) ==
  LET key == Key(m, stat, opts, secs)
      use == ~Touch(secs)
      rows == [k \in 1..Len(secs) |-> RowFor(m, stat, opts, secs[k], key)]
      ans == CASE stat = "energy" -> IF use THEN Sum2(rows, opts[2]) ELSE EnergyIn(st.meters[m].tab, st.maxp, opts[2], secs)
               [] stat = "good" -> IF use THEN Flat(rows) ELSE GoodIn(st.meters[m].tab, st.maxp, secs)
               [] stat = "dropout" -> IF use THEN <<Dr!Combined(Flat(rows), st.sp)>>
                                      ELSE DropoutIn(st.meters[m].tab, st.sp, opts[1], secs)
      new == NewRows(m, stat, opts, secs, key)
      c2 == IF ~use \/ new = {} THEN cache
            ELSE [k \in DOMAIN cache \cup {key} |-> IF k = key THEN Held(key) \cup new ELSE cache[k]]
  IN [ans |-> ans, cache |-> c2]

Log(o, a, r) == hist' = Append(hist, [op |-> o, a |-> a, res |-> r])
Room == Len(hist) < MaxLen
Init == st = InitSt(Raw) /\ cache = <<>> /\ hist = <<>>
AskEnergy == Room /\ \E m \in Meters, n \in {50}, ac \in {0, 3}, sc \in SecLists :
  LET r == Cached(m, "energy", <<n, ac>>, Wanted(st, m, Frames3(sc, 1))) IN
  cache' = r.cache /\ Log("energy", <<m, n, ac>> \o sc, r.ans) /\ UNCHANGED st
AskGood == Room /\ \E m \in Meters \ {2}, n \in {2, 50}, sc \in SecLists :
  LET r == Cached(m, "good", <<n>>, Wanted(st, m, Frames3(sc, 1))) IN
  cache' = r.cache /\ Log("good", <<m, n>> \o sc, GS!Obs(r.ans)) /\ UNCHANGED st
AskDropout == Room /\ \E m \in Meters \ {2}, n \in {5, 50}, sc \in SecLists :
  LET r == Cached(m, "dropout", <<n>>, Wanted(st, m, Frames3(sc, 1))) IN
  cache' = r.cache /\ Log("dropout", <<m, n, 0>> \o sc, r.ans) /\ UNCHANGED st
Clear == Room /\ hist # <<>> /\ \E m \in {1} :
  /\ cache' = [k \in {x \in DOMAIN cache : <<x[1], x[2], x[3]>> # <<st.meters[m].d, st.meters[m].b, st.meters[m].i>>} |-> cache[k]]
  /\ Log("clear", <<m>>, <<>>) /\ UNCHANGED st
SetWindow == Room /\ \E w \in Wins :
  /\ st.win[1] # Frame(w[1], w[2], FALSE, FALSE)
  /\ st' = [st EXCEPT !.win[1] = Frame(w[1], w[2], FALSE, FALSE)]
  /\ Log("window", <<1>> \o w, <<>>) /\ UNCHANGED cache
Next == AskEnergy \/ AskGood \/ AskDropout \/ Clear \/ SetWindow

\* the last answer is the one computed from the stored data
Invisible == hist # <<>> =>
  LET e == hist[Len(hist)] IN
  e.op \in {"energy", "good", "dropout"} => e.res = Answer(st, e.op, e.a)
\* a remembered row is what the section's data gives
Honest == \A k \in DOMAIN cache : \A r \in cache[k] : r[1][1] < r[1][2]
Emit == Len(hist) = MaxLen => PrintT(ToJson(<<[op |-> "begin", a |-> Raw, res |-> <<>>]>> \o hist))
===========================================================================
