-------------------------------- MODULE Calendar --------------------------------
(* Days of the Gregorian calendar, counted from 1970-01-01 (day 0).                  *)
EXTENDS Integers
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLength(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                       [] m \in {4, 6, 9, 11} -> 30
                       [] OTHER -> 31
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
LeapsBefore(y) == (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNumber(y, m, d) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970)
                      + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..MonthLength(y, m)
==================================================================================
