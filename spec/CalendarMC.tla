------------------------------- MODULE CalendarMC -------------------------------
(* The calendar as it is kept: day after day, forwards and backwards from the epoch. *)
(* The closed form by which recorded dates are judged agrees with it on every day.   *)
EXTENDS Calendar, Sequences, TLC, Json
CONSTANTS FirstYear, LastYear
VARIABLES day, y, m, d
vars == <<day, y, m, d>>
Init == day = 0 /\ y = 1970 /\ m = 1 /\ d = 1
Tomorrow == /\ day >= 0 /\ ~ (y = LastYear /\ m = 12 /\ d = 31)
            /\ day' = day + 1
            /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
               ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Yesterday == /\ day <= 0 /\ ~ (y = FirstYear /\ m = 1 /\ d = 1)
             /\ day' = day - 1
             /\ IF d > 1 THEN d' = d - 1 /\ m' = m /\ y' = y
                ELSE IF m > 1 THEN m' = m - 1 /\ y' = y /\ d' = MonthLength(y, m - 1)
                     ELSE m' = 12 /\ y' = y - 1 /\ d' = 31
Next == Tomorrow \/ Yesterday
Spec == Init /\ [][Next]_vars
Agrees == DayNumber(y, m, d) = day /\ ValidDate(y, m, d)
Emit == (m \in {1, 2, 3, 12} /\ (d = 1 \/ d >= 28)) => PrintT("@@" \o ToJson([kind |-> "day", day |-> day]))
==================================================================================
