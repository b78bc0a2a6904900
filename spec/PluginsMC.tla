----------------------------- MODULE PluginsMC ------------------------------
(* Exhaustive exploration of Plugins: a few directives, every sequence of   *)
(* at most Depth of a few plugins, and everything the server may say.       *)
EXTENDS Plugins, Json, IOUtils

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Universe == Theme.plugins
Depth == Theme.depth
Raws == Theme.raws

VARIABLES hist
Hists == UNION {[1..d -> 1..Len(Universe)] : d \in 0..Depth}
Spanned(k, d) == [Dct(0, d.kind, d.date, d.base, [j \in 1..d.n |-> [Pst("p") EXCEPT !.span = <<"sp" \o ToString(k) \o "." \o ToString(j)>>]])
                   EXCEPT !.span = <<"s" \o ToString(k)>>]
EnvOf(parse) == [parse |-> parse, raws |-> [k \in 1..Len(Raws) |-> Spanned(k, Raws[k])], option |-> "Assets", name |-> "f"]
Parses == {<<>>, << <<"r">> >>}
MInit == /\ hist \in Hists
         /\ \E p \in Parses : Begin(EnvOf(p), [k \in 1..Len(hist) |-> Universe[hist[k]]])
\* booking may leave out, reorder, add; reports are of directives and postings
BookedOf(d, i) == [kind |-> d.kind, date |-> d.date, base |-> d.base \o "'", marks |-> SetToSeq(d.marks), idx |-> i - 1,
                   ps |-> [j \in 1..Len(d.ps) |-> [base |-> d.ps[j].base \o "'", idx |-> <<j - 1>>]]]
AllBooked == [k \in 1..Len(ToBook) |-> BookedOf(ToBook[k], k)]
Ok(ds) == [ok |-> TRUE, dirs |-> ds, reports |-> <<>>, spanned |-> <<>>, message |-> <<>>]
Err(r, m) == [ok |-> FALSE, dirs |-> <<>>, reports |-> r, spanned |-> <<>>, message |-> m]
Report(ix, rel) == [reason |-> <<"why">>, annotation |-> <<>>, idx |-> ix, related |-> rel]
Replies ==
  {Ok(AllBooked), Ok(Reverse(AllBooked)), Err(<<>>, <<"invalid params">>)}
  \cup {Ok(Tail(AllBooked)) : x \in {y \in {1} : AllBooked # <<>>}}
  \cup {Err(<<Report(<<k - 1>>, <<>>)>>, <<>>) : k \in 1..Len(ToBook)}
  \cup {Err(<<Report(<<k - 1, 0>>, << <<0>> >>)>>, <<>>) : k \in {k \in 1..Len(ToBook) : ToBook[k].ps # <<>>}}
MNext == /\ UNCHANGED hist
         /\ PNext \/ (stage = "book" /\ \E r \in Replies : Book(r))
         /\ stage' = "done" /\ stage # "done" => PrintT(<<"B", hist>>)
MSpec == MInit /\ [][MNext]_<<pvars, hist>>

(*************************** what users rely on ****************************)
\* plugins, one after the other, each on all that the one before made: the same as directive by directive
RECURSIVE One(_, _, _, _, _)
Skin(d) == [d EXCEPT !.oid = 0, !.prov = <<>>, !.spanp = <<>>, !.ps = [k \in 1..Len(@) |-> [@[k] EXCEPT !.spanp = <<>>]]]
One(k, n, ds, done, hold) ==
  IF ds = <<>> THEN done \o hold
  ELSE LET r == Act(k, n, ds[1], 0) IN One(k, n + 1, Tail(ds), done \o r.pass, hold \o r.hold)
RECURSIVE Compose(_, _)
Compose(k, ds) == IF k = 0 THEN ds ELSE One(k, 1, Compose(k - 1, ds), <<>>, <<>>)
Skins(ds) == [k \in 1..Len(ds) |-> Skin(ds[k])]
Composed == Running /\ Busy = {} /\ pos = Len(Source) /\ closed = N => Skins(out) = Skins(Compose(N, Source))

\* what plugins changed or made is told apart from what they left alone
Known(d, src) == \E k \in 1..Len(src) : src[k] = d
Ascending(prov, names) == \E f \in [1..Len(prov) -> 1..Len(names)] :
                            (\A i \in 1..Len(prov) : names[f[i]] = prov[i]) /\ (\A i, j \in 1..Len(prov) : i < j => f[i] < f[j])
NamesOf(kind) == LET ps == SelectSeq(plugs, LAMBDA p : IF kind = "raw" THEN p.raw ELSE p.booked) IN [k \in 1..Len(ps) |-> ps[k].name]
Told(ds, src, kind, names) ==
  \A k \in 1..Len(ds) :
    LET d == ds[k] IN
    /\ Known(d, src) \/ Has(d.prov) \/ (Has(d.err) /\ Has(d.span))
    /\ Has(d.prov) => Has(d.spanp) /\ \A j \in 1..Len(d.ps) : Has(d.ps[j].spanp)
    /\ Ascending(d.prov, names)
    /\ Has(d.span) \/ Has(d.spanp)
Marked ==
  /\ Has(beans.rawxf) => Told(The(beans.rawxf), The(beans.raws), "raw", NamesOf("raw"))
  /\ Has(beans.bookedxf) => Told(The(beans.bookedxf), The(beans.booked), "booked", NamesOf("raw") \o <<":booked">> \o NamesOf("booked"))
\* every directive booked is of a known place
Sourced == Has(beans.booked) => \A k \in 1..Len(The(beans.booked)) : LET d == The(beans.booked)[k] IN Has(d.span) \/ Has(d.spanp)
\* plugins which let everything through change nothing
Harmless(k) == ~Has(plugs[k].script) /\ plugs[k].fault = ""
Unchanged == Done /\ ~Has(error) /\ (\A k \in 1..Len(plugs) : Harmless(k)) =>
               /\ Has(beans.rawxf) => beans.rawxf = beans.raws
               /\ Has(beans.bookedxf) => beans.bookedxf = beans.booked
\* an error anywhere, and there are no directives to work with; without one there are
Safe == Done => /\ Has(error) <=> Final = <<>>
                /\ Has(error) => Len(Said) > 1
                /\ IsError("directives") => Has(Reports)
                /\ IsError("booking") => ~Has(beans.booked)
                /\ (Has(beans.booked) => ~Has(beans.rawxf) \/ Wrong(The(beans.rawxf)) = <<>>)
\* every report has a place
Placed == Done => \A k \in 1..Len(Reports) : IsError("parser") \/ Has(Reports[k].span)
=============================================================================
