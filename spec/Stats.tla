---------------------------------- MODULE Stats ----------------------------------
(* Averages of data over calendar periods, and over equal bins. A time is            *)
(* <<year, month, day, hour, minute, second>>.                                        *)
EXTENDS Calendar, Sequences, FiniteSets
Day(t) == DayNumber(t[1], t[2], t[3])
(* the number of the period a time is in                                              *)
Period(kind, t) == CASE kind = "year"  -> t[1]
                     [] kind = "month" -> 12 * t[1] + t[2] - 1
                     [] kind = "day"   -> Day(t)
                     [] kind = "hour"  -> 24 * Day(t) + t[4]
(* its start                                                                          *)
Floor(kind, t) == CASE kind = "year"  -> <<t[1], 1, 1, 0, 0, 0>>
                    [] kind = "month" -> <<t[1], t[2], 1, 0, 0, 0>>
                    [] kind = "day"   -> <<t[1], t[2], t[3], 0, 0, 0>>
                    [] kind = "hour"  -> <<t[1], t[2], t[3], t[4], 0, 0>>
SmallestOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LargestOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Periods(kind, times) == {Period(kind, times[k]) : k \in 1..Len(times)}
FirstPeriod(kind, times) == SmallestOf(Periods(kind, times))
PeriodCount(kind, times) == LargestOf(Periods(kind, times)) - FirstPeriod(kind, times) + 1
(* positions of the data of the n-th period from the first                             *)
InPeriod(kind, times, n) == {k \in 1..Len(times) : Period(kind, times[k]) = FirstPeriod(kind, times) + n - 1}

(* n bins of [lo, hi]: each contains its lower limit, the last both                    *)
InBin(X, lo, hi, n, i) ==
  {k \in 1..Len(X) : /\ n * (X[k] - lo) >= (i - 1) * (hi - lo)
                     /\ n * (X[k] - lo) < i * (hi - lo) \/ (i = n /\ X[k] = hi)}
RECURSIVE Total(_, _)
Total(v, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN v[k] + Total(v, S \ {k})
==================================================================================
