----------------------------- MODULE Checkpoints -----------------------------
(* The files of a working directory, and a model clearing its checkpoints.     *)
(* A name is a sequence of characters: 1 a, 2 b, 3 dot, 4 h, 5 five, 6 H, 7 -. *)
(* Kinds: 1 file, 2 directory, 3 link to a file elsewhere, 4 link to a         *)
(* directory elsewhere.                                                        *)
EXTENDS Codes
None == 777
Ext == <<3, 4, 5>>
Starts(name, p) == Len(p) <= Len(name) /\ SubSeq(name, 1, Len(p)) = p
Ends(name, e) == Len(e) <= Len(name) /\ SubSeq(name, Len(name) - Len(e) + 1, Len(name)) = e
IsFile(e) == e.kind \in {1, 3}
Mine(e, p) == IsFile(e) /\ Starts(e.name, p) /\ Ends(e.name, Ext)
Cleared(dir, p) == SelectSeq(dir, LAMBDA e : ~Mine(e, p))

RECURSIVE Entries(_)
Entries(a) == IF a = <<>> THEN <<>>
              ELSE <<[kind |-> a[1], name |-> SubSeq(a, 3, 2 + a[2])]>> \o Entries(SubSeq(a, 3 + a[2], Len(a)))
RECURSIVE Add(_, _)
Add(dir, es) == IF es = <<>> THEN dir
                ELSE Add(IF \E k \in 1..Len(dir) : dir[k].name = es[1].name THEN dir ELSE Append(dir, es[1]), Tail(es))
\* the directory, in the order the entries were made
Obs(dir) == Flat([k \in 1..Len(dir) |-> <<dir[k].kind, Len(dir[k].name)>> \o dir[k].name])
InitSt(a) == Add(<<>>, Entries(a))
Apply(st, ev) ==
  CASE ev.op = "clear" -> LET d == IF ev.a = <<None>> THEN st ELSE Cleared(st, ev.a) IN R(d, Obs(d))
    [] ev.op = "create" -> LET d == Add(st, Entries(ev.a)) IN R(d, Obs(d))
    [] OTHER -> R(st, <<-99>>)
Accepts(st, ev, r) == r.res = ev.res
===========================================================================
