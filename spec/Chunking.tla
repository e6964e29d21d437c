------------------------------- MODULE Chunking -----------------------------
(* Chunked loading of a table for a list of sections, as a cursor machine. *)
(*                                                                        *)
(* A table is a sequence of rows <<time, v1, v2>> with increasing times.   *)
(* load() opens a cursor; every next() delivers one chunk.                 *)
(*   "hdf": consecutive chunks of a section share one boundary row, and a  *)
(*          section without data delivers one chunk without rows;          *)
(*   "csv": each row is delivered once, never a chunk without rows.        *)
EXTENDS Frames

\* the positions of the rows of table tab that lie in frame f
Rows(tab, f) == SelectSeq([i \in 1..Len(tab) |-> i],
                          LAMBDA i : ~f.em /\ S(f) <= tab[i][1]
                                     /\ (tab[i][1] < E(f) \/ (f.inc /\ tab[i][1] = E(f))))

NoRows(f) == [lo |-> 1, hi |-> 0, s |-> f.s, e |-> f.e, data |-> FALSE]

(* One section: the chunks it is delivered in. *)
Span(w, s, e) == IF s < e THEN <<s, e>> ELSE <<S(w), E(w)>>
SectionChunks(tab, win, sec, size) ==
  LET w == Inter(win, sec)
      r == Rows(tab, w)
  IN IF w.em THEN << NoRows(sec) >>
     ELSE IF r = <<>> THEN << NoRows(IF S(w) = NegInf /\ E(w) = PosInf THEN sec ELSE w) >>
     ELSE LET first == r[1]
              last == r[Len(r)]
              n == IF last = first THEN 1 ELSE (last - first + size - 1) \div size
              Chunk(k) ==
                LET lo == first + (k - 1) * size
                    hi == Min2(lo + size, last)
                    s == IF k = 1 /\ S(w) # NegInf THEN S(w) ELSE tab[lo][1]
                    e == IF k = n /\ E(w) # PosInf THEN E(w) ELSE tab[hi][1]
                    sp == Span(w, s, e)
                IN [lo |-> lo, hi |-> hi, s |-> sp[1], e |-> sp[2], data |-> TRUE]
          IN [k \in 1..n |-> Chunk(k)]

(* CSV: the file is read in blocks of `size` rows, each masked by the section. *)
CsvChunks(tab, win, sec, size) ==
  LET w == Inter(win, sec)
      blocks == (Len(tab) + size - 1) \div size
      Block(k) == SelectSeq(Rows(tab, w), LAMBDA i : (i - 1) \div size = k - 1)
      Chunk(k) == LET b == Block(k) IN
                  IF b = <<>> THEN NoRows(w)
                  ELSE [lo |-> b[1], hi |-> b[Len(b)], s |-> tab[b[1]][1], e |-> tab[b[Len(b)]][1], data |-> TRUE]
  IN SelectSeq([k \in 1..blocks |-> Chunk(k)], LAMBDA c : c.data)

RECURSIVE AllChunks(_, _, _, _, _)
AllChunks(kind, tab, win, secs, size) ==
  IF secs = <<>> THEN <<>>
  ELSE (IF kind = 0 THEN SectionChunks(tab, win, Head(secs), size)
        ELSE CsvChunks(tab, win, Head(secs), size))
       \o AllChunks(kind, tab, win, Tail(secs), size)
===========================================================================
