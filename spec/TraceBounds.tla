------------------------------ MODULE TraceBounds ----------------------------
(* Judges the table of what the crate says about every range form: one line per *)
(* (value type, way of passing, form, bounds), with the answers of all methods  *)
(* and the answers to overlaps with every other range.                          *)
EXTENDS Bounds, Json, IOUtils, TLC, TLCExt
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Ev == Log[l]
Init == l = 1
Good ==
  /\ Ev.op = "range" /\ Ev.out = "ok"
  /\ Ev.lo = Ev.wlo /\ Ev.hi = Ev.whi /\ Ev.loc = Ev.wlo /\ Ev.hic = Ev.whi
  /\ Len(Ev.has) = NVals /\ \A r \in 1..NVals : Ev.has[r] = Contains(r - 1, Ev.wlo, Ev.whi)
  /\ Ev.after = Empty(Ev.wlo, Ev.whi) /\ Ev.empty = Empty(Ev.wlo, Ev.whi)
  /\ \A k \in 1..Len(Ev.over) : Ev.over[k][3] = (IF Overlap(Ev.wlo, Ev.whi, Ev.over[k][1], Ev.over[k][2]) THEN "true" ELSE "false")
Step == l <= Len(Log) /\ Good /\ l' = l + 1
Spec == Init /\ [][Step]_l
Progress == TLCSet(1, l)
\* nothing is missing from the table
Pairs(form) == CASE form = "full" -> 1 [] form \in {"from", "to", "toi"} -> NVals [] form \in {"range", "rangei"} -> NVals * NVals
                 [] form \in {"pair", "custom"} -> Cardinality(Los) * Cardinality(His)
FormNames == {"full", "from", "to", "toi", "range", "rangei", "pair", "custom"}
AllRanges == Los \X His
Complete ==
  /\ \A ty \in {"u8", "i64", "String", "He"} : \A form \in FormNames :
       \A via \in {"val", "ref", "refref"} \cup (IF form \in {"full", "custom"} THEN {} ELSE {"elemref"}) :
          Cardinality({<<Log[k].wlo, Log[k].whi>> : k \in {k \in 1..Len(Log) : Log[k].ty = ty /\ Log[k].form = form /\ Log[k].via = via}}) = Pairs(form)
  /\ \A k \in 1..Len(Log) : {<<Log[k].over[j][1], Log[k].over[j][2]>> : j \in 1..Len(Log[k].over)} = AllRanges
Accepted ==
  IF TLCGet(1) # Len(Log) + 1 THEN PrintT(<<"REJECTED", TLCGet(1), Log[TLCGet(1)]>>) /\ FALSE
  ELSE IF Complete THEN PrintT(<<"ACCEPTED", Len(Log)>>)
  ELSE PrintT(<<"INCOMPLETE">>) /\ FALSE
=============================================================================
