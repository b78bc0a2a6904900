------------------------------ MODULE Tabulate ------------------------------
(* How a cell is laid out as lines of text, for limabean-pod tabulate.      *)
(*                                                                          *)
(* A cell is [t, ...] by its kind t:                                        *)
(*   empty                                                                  *)
(*   aligned   s, w (its width), al: left, right or centre                  *)
(*   anchored  s, w, at: the position of the character to align by          *)
(*   row       cells side by side, gut (of width gw) between them           *)
(*   stack     cells one above the other, the columns of their rows aligned *)
(* One action prints one line.                                              *)
(*                                                                          *)
(* lib: as the tabulator library really does it.  It takes the widest of    *)
(* the numbers of a column for the width of the column, although, aligned   *)
(* by their points, they need more, and so pads other cells there too       *)
(* little; and it forgets about cells which are wider than the rows they    *)
(* are stacked with, and fails (a known finding).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cell, lib, grid, rest, lines, marks
\* rest: what is still to be printed; lines: [s, w] printed, w their width
\* marks: where each text was printed
tabvars == <<cell, lib, grid, rest, lines, marks>>

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN " " ELSE Spaces(n \div 2) \o Spaces(n - n \div 2)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Empty == [t |-> "empty"]
IsEmpty(c) == c.t = "empty"
AllEmpty(cs) == \A k \in 1..Len(cs) : IsEmpty(cs[k])

-----------------------------------------------------------------------------
(* The grid: how wide a cell is, how far before and after its anchor it     *)
(* reaches (an), and the grids of its columns (ch), if it has any.          *)
NoGrid == [w |-> 0, an |-> <<>>, ch |-> <<>>, gut |-> <<>>]
Columns(g) == Sum([k \in 1..Len(g.ch) |-> g.ch[k].w]) + (IF g.ch = <<>> THEN 0 ELSE (Len(g.ch) - 1) * g.gut[1].w)
Widen(g, real) ==
  IF real THEN IF g.gut # <<>> THEN [g EXCEPT !.w = Columns(g)] ELSE g
  ELSE LET a == IF g.an = <<>> THEN 0 ELSE g.an[1] + g.an[2]
           b == IF g.gut = <<>> THEN 0 ELSE Columns(g)
       IN [g EXCEPT !.w = Max(@, Max(a, b))]
RECURSIVE Merge(_, _, _)
Merge(g, h, real) ==
  LET n == Max(Len(g.ch), Len(h.ch))
      ch == [k \in 1..n |-> IF k > Len(g.ch) THEN h.ch[k] ELSE IF k > Len(h.ch) THEN g.ch[k] ELSE Merge(g.ch[k], h.ch[k], real)]
      gut == IF g.gut = <<>> THEN h.gut ELSE IF h.gut = <<>> THEN g.gut
             ELSE IF g.gut[1].w >= h.gut[1].w THEN g.gut ELSE h.gut
      an == IF g.an = <<>> THEN h.an ELSE IF h.an = <<>> THEN g.an
            ELSE <<Max(g.an[1], h.an[1]), Max(g.an[2], h.an[2])>>
  IN Widen([w |-> Max(g.w, h.w), an |-> an, ch |-> ch, gut |-> gut], real)
RECURSIVE Grid(_, _), MergeAll(_, _)
Grid(c, real) ==
  CASE c.t = "empty" -> NoGrid
    [] c.t = "aligned" -> [NoGrid EXCEPT !.w = c.w]
    [] c.t = "anchored" -> [NoGrid EXCEPT !.w = c.w, !.an = <<c.at, c.w - c.at>>]
    [] c.t = "row" -> Widen([NoGrid EXCEPT !.ch = [k \in 1..Len(c.cells) |-> Grid(c.cells[k], real)],
                                           !.gut = <<[s |-> c.gut, w |-> c.gw]>>], TRUE)
    [] c.t = "stack" -> MergeAll([k \in 1..Len(c.cells) |-> Grid(c.cells[k], real)], real)
MergeAll(gs, real) == IF gs = <<>> THEN NoGrid
                      ELSE IF Len(gs) = 1 THEN gs[1]
                      ELSE Merge(MergeAll(SubSeq(gs, 1, Len(gs) - 1), real), gs[Len(gs)], real)

-----------------------------------------------------------------------------
(* The next line of a cell: [s, w, rest, marks]; a mark is [id, x, w] of a  *)
(* text printed in it.  fails: more to be padded than there is room for.    *)
Out(s, w, rest_, ms, f) == [s |-> s, w |-> w, rest |-> rest_, marks |-> ms, fails |-> f]
Blank(g) == Out(Spaces(g.w), g.w, Empty, {}, FALSE)
Shift(ms, n) == {[m EXCEPT !.x = @ + n] : m \in ms}
RECURSIVE Line(_, _, _), RowLine(_, _, _, _)
\* the columns from k on
RowLine(cells, g, k, real) ==
  IF k > Len(g.ch) THEN Out("", 0, <<>>, {}, FALSE)
  ELSE LET a == Line(IF k > Len(cells) THEN Empty ELSE cells[k], g.ch[k], real)
           b == RowLine(cells, g, k + 1, real)
           gs == IF k > 1 THEN g.gut[1].s ELSE ""
           gw == IF k > 1 THEN g.gut[1].w ELSE 0
       IN Out(gs \o a.s \o b.s, gw + a.w + b.w, <<a.rest>> \o b.rest, Shift(a.marks, gw) \cup Shift(b.marks, gw + a.w), a.fails \/ b.fails)
Padded(o, g) == IF o.w >= g.w THEN o ELSE [o EXCEPT !.s = @ \o Spaces(g.w - o.w), !.w = g.w]
Text1(c, l, r) == Out(Spaces(l) \o c.s \o Spaces(r), Max(l, 0) + c.w + Max(r, 0), Empty, {[id |-> c.id, x |-> Max(l, 0), w |-> c.w]}, l < 0 \/ r < 0)
Line(c, g, real) ==
  CASE c.t = "empty" -> Blank(g)
    [] c.t = "aligned" ->
         LET p == g.w - c.w
         IN IF c.al = "left" THEN Text1(c, 0, p)
            ELSE IF c.al = "right" THEN Text1(c, p, 0)
            ELSE Text1(c, p \div 2, p - p \div 2)
    [] c.t = "anchored" ->
         LET l == g.an[1] - c.at
             r == g.an[2] - (c.w - c.at)
         IN Text1(c, l, IF real THEN r ELSE g.w - l - c.w)
    [] c.t = "row" ->
         IF c.cells = <<>> THEN Blank(g)
         ELSE LET o == RowLine(c.cells, g, 1, real)
                  r == [o EXCEPT !.rest = IF AllEmpty(o.rest) THEN Empty ELSE [c EXCEPT !.cells = o.rest]]
              IN IF real THEN r ELSE Padded(r, g)
    [] c.t = "stack" ->
         IF c.cells = <<>> THEN Blank(g)
         ELSE LET o == Line(Head(c.cells), g, real)
                  more == (IF IsEmpty(o.rest) THEN <<>> ELSE <<o.rest>>) \o Tail(c.cells)
              IN [o EXCEPT !.rest = IF AllEmpty(more) THEN Empty ELSE [c EXCEPT !.cells = more]]

-----------------------------------------------------------------------------
Begin(c, real) ==
  /\ cell = c /\ lib = real
  /\ grid = Grid(c, real)
  /\ rest = c
  /\ lines = <<>> /\ marks = {}
Ended == IsEmpty(rest)
PrintLine ==
  /\ ~Ended
  /\ LET o == Line(rest, grid, lib)
     IN /\ lines' = Append(lines, [s |-> o.s, w |-> o.w, fails |-> o.fails])
        /\ marks' = marks \cup {[id |-> m.id, x |-> m.x, w |-> m.w, y |-> Len(lines) + 1] : m \in o.marks}
        /\ rest' = o.rest
  /\ UNCHANGED <<cell, lib, grid>>
\* nothing to print gives one empty line
Printed == IF lines = <<>> THEN <<"">> ELSE [k \in 1..Len(lines) |-> lines[k].s]
Fails == \E k \in 1..Len(lines) : lines[k].fails
=============================================================================
