--------------------------------- MODULE StatsMC ---------------------------------
(* Averaging by the loop of the code: from the start of the first period, period after *)
(* period, picking the times in it. Every datum is picked once, in its own period.       *)
EXTENDS Stats, TLC, Json
CONSTANTS MaxData
Kinds == {"hour", "day", "month", "year"}
Near == [hour  |-> {<<2000, 2, 29, 22, 0, 0>>, <<2000, 2, 29, 22, 59, 59>>, <<2000, 2, 29, 23, 0, 1>>, <<2000, 3, 1, 0, 0, 0>>, <<2000, 3, 1, 2, 30, 0>>},
         day   |-> {<<1900, 2, 27, 0, 0, 0>>, <<1900, 2, 27, 23, 59, 59>>, <<1900, 2, 28, 23, 0, 0>>, <<1900, 3, 1, 0, 0, 0>>, <<1900, 3, 3, 12, 0, 0>>},
         month |-> {<<1999, 11, 30, 23, 59, 59>>, <<1999, 12, 1, 0, 0, 0>>, <<1999, 12, 31, 23, 0, 0>>, <<2000, 2, 29, 0, 0, 0>>, <<2000, 3, 1, 0, 0, 0>>},
         year  |-> {<<1999, 1, 1, 0, 0, 0>>, <<1999, 12, 31, 23, 59, 59>>, <<2000, 1, 1, 0, 0, 0>>, <<2003, 6, 15, 1, 2, 3>>, <<2004, 2, 29, 0, 0, 0>>}]
VARIABLES kind, times, at, n, picked
vars == <<kind, times, at, n, picked>>
Before2(a, b) == \/ Day(a) < Day(b) \/ (Day(a) = Day(b) /\ 3600 * a[4] + 60 * a[5] + a[6] < 3600 * b[4] + 60 * b[5] + b[6])
Tomorrow(t) == IF t[3] < MonthLength(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
               ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>> ELSE <<t[1] + 1, 1, 1>>
After(k, t) == CASE k = "hour"  -> IF t[4] < 23 THEN <<t[1], t[2], t[3], t[4] + 1, 0, 0>> ELSE Tomorrow(t) \o <<0, 0, 0>>
                 [] k = "day"   -> Tomorrow(t) \o <<0, 0, 0>>
                 [] k = "month" -> IF t[2] < 12 THEN <<t[1], t[2] + 1, 1, 0, 0, 0>> ELSE <<t[1] + 1, 1, 1, 0, 0, 0>>
                 [] k = "year"  -> <<t[1] + 1, 1, 1, 0, 0, 0>>
Extreme(P(_, _)) == CHOOSE x \in {times[k] : k \in 1..Len(times)} : \A j \in 1..Len(times) : ~ P(times[j], x)
First == Floor(kind, Extreme(Before2))
Last == Floor(kind, Extreme(LAMBDA a, b : Before2(b, a)))
Init == /\ kind \in Kinds /\ times \in UNION {[1..k -> Near[kind]] : k \in 1..MaxData}
        /\ at = First /\ n = 1 /\ picked = <<>>
Pick == /\ ~ Before2(Last, at)
        /\ LET next == After(kind, at)
           IN /\ picked' = Append(picked, [start |-> at, ks |-> {k \in 1..Len(times) : ~ Before2(times[k], at) /\ Before2(times[k], next)}])
              /\ at' = next
        /\ n' = n + 1 /\ UNCHANGED <<kind, times>>
Spec == Init /\ [][Pick]_vars
Done == Before2(Last, at)
InOrder == \A p \in 1..Len(picked) : /\ picked[p].ks = InPeriod(kind, times, p)
                                     /\ Period(kind, picked[p].start) = FirstPeriod(kind, times) + p - 1
                                     /\ picked[p].start = Floor(kind, picked[p].start)
Complete == Done => /\ Len(picked) = PeriodCount(kind, times)
                    /\ \A k \in 1..Len(times) : Cardinality({p \in 1..Len(picked) : k \in picked[p].ks}) = 1
Emit == Done => PrintT("@@" \o ToJson([kind |-> "periods", period |-> kind, times |-> times]))
==================================================================================
