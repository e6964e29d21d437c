------------------------------- MODULE Group -------------------------------
(* Looking up and selecting meters, and how they are wired (see GroupCore).    *)
EXTENDS GroupCore
InitSt(a) == InitG(a)
Apply(st, ev) == ApplyG(st, ev)
Accepts(st, ev, r) == r.res = <<-98>> \/ r.res = ev.res
===========================================================================
