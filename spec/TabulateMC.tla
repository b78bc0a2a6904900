----------------------------- MODULE TabulateMC -----------------------------
(* Exhaustive exploration of Tabulate over the cells made of a few leaves:  *)
(* stacks of up to Height rows or leaves of up to Width leaves, and those   *)
(* side by side.  The invariants say what a table is to look like.  Each    *)
(* cell is printed, to be given to the real program.                        *)
EXTENDS Tabulate, Json, IOUtils

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Leaves == Theme.leaves
Gut == Theme.gut
Gw == Theme.gw

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Leaf == {[k |-> x] : x \in 1..Len(Leaves)}
RowsOf(n) == {[row |-> r] : r \in Seqs(Leaf, n)}
StacksOf(S, n) == {[stack |-> s] : s \in Seqs(S, n)}
\* the universe, of cells as [k], [row] or [stack]
Shapes ==
  CASE Theme.kind = "table" -> StacksOf(RowsOf(Theme.width) \cup Leaf, Theme.height)
    [] Theme.kind = "beside" ->     \* stacks of leaves side by side, twice
         LET cells == StacksOf(Leaf, Theme.height) \cup Leaf
         IN {[row |-> r] : r \in [1..Theme.width -> cells]}
    [] Theme.kind = "nested" ->     \* tables as values of rows
         LET inner == StacksOf({[row |-> r] : r \in [1..2 -> Leaf]}, Theme.height)
         IN {[stack |-> <<[row |-> <<[k |-> a], i>>], [row |-> <<[k |-> b], j>>]>>] :
               a \in {1}, b \in {2}, i \in inner \cup Leaf, j \in inner \cup Leaf}

\* as cells, every text with an id of its own: its path
RECURSIVE Build(_, _)
Build(x, path) ==
  IF "k" \in DOMAIN x
  THEN LET c == Leaves[x.k] IN IF c.t = "empty" THEN c ELSE [c EXCEPT !.id = path]
  ELSE IF "row" \in DOMAIN x
  THEN [t |-> "row", cells |-> [k \in 1..Len(x.row) |-> Build(x.row[k], Append(path, <<"row", k>>))], gut |-> Gut, gw |-> Gw]
  ELSE [t |-> "stack", cells |-> [k \in 1..Len(x.stack) |-> Build(x.stack[k], Append(path, <<"stack", k>>))]]

VARIABLES shape
MInit == shape \in Shapes /\ Begin(Build(shape, <<>>), FALSE) /\ PrintT(<<"B", ToJson(shape)>>)
MNext == PrintLine /\ UNCHANGED shape
MSpec == MInit /\ [][MNext]_<<tabvars, shape>>

(*************************** what users rely on ****************************)
RECURSIVE Texts(_)
Texts(c) == CASE c.t = "empty" -> {} [] c.t \in {"aligned", "anchored"} -> {c}
              [] OTHER -> UNION {Texts(c.cells[k]) : k \in 1..Len(c.cells)}
TextOf(id) == CHOOSE c \in Texts(cell) : c.id = id
\* every text is printed, once, and whole
Once == /\ \A m, n \in marks : m.id = n.id => m = n
        /\ \A m \in marks : m.w = TextOf(m.id).w
        /\ Ended => {m.id : m \in marks} = {c.id : c \in Texts(cell)}
\* nothing is printed over anything else
Apart == \A m, n \in marks : m # n /\ m.y = n.y => m.x + m.w <= n.x \/ n.x + n.w <= m.x
\* all lines are of one width, that of the table, and never fail
Even == \A k \in 1..Len(lines) : lines[k].w = grid.w /\ ~lines[k].fails
\* no wider than its texts need it
Common(p, q) == CHOOSE n \in 0..Len(p) : /\ n <= Len(q) /\ SubSeq(p, 1, n) = SubSeq(q, 1, n)
                                          /\ n < Len(p) /\ n < Len(q) => p[n + 1] # q[n + 1]
\* cells of a row are in order, with a gutter between; cells of a stack are one below the other
Ordered ==
  \A m, n \in marks : m.id # n.id =>
    LET k == Common(m.id, n.id) + 1 IN
    (k <= Len(m.id) /\ k <= Len(n.id) /\ m.id[k][2] < n.id[k][2]) =>
      IF m.id[k][1] = "row" THEN m.x + m.w + Gw <= n.x ELSE m.y < n.y
\* texts of a column line up as they ask for
Column(id) == SelectSeq(id, LAMBDA s : s[1] = "row")
\* columns of rows which are not stacked with one another have nothing to do with one another
SameColumn(p, q) == /\ Column(p) = Column(q)
                    /\ LET k == Common(p, q) + 1 IN k > Len(p) \/ k > Len(q) \/ p[k][1] = "stack"
Aligned ==
  \A m, n \in marks : SameColumn(m.id, n.id) =>
    LET c == TextOf(m.id) d == TextOf(n.id) IN
    CASE c.t = "anchored" /\ d.t = "anchored" -> m.x + c.at = n.x + d.at
      [] c.t = "aligned" /\ d.t = "aligned" /\ c.al = d.al /\ c.al = "left" -> m.x = n.x
      [] c.t = "aligned" /\ d.t = "aligned" /\ c.al = d.al /\ c.al = "right" -> m.x + m.w = n.x + n.w
      [] OTHER -> TRUE
=============================================================================
