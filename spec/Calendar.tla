------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The trading days of the New York Stock Exchange, 2010 to 2022.  A day   *)
(* is its number since 1970-01-01 (a Thursday).                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
\* days from 1970-01-01 to y-m-d in the Gregorian calendar
Day(y, m, d) ==
    LET a == IF m <= 2 THEN y - 1 ELSE y
        era == a \div 400
        yoe == a - era * 400
        doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468
\* 0 = Monday
Weekday(n) == (n + 3) % 7
\* k-th given weekday of a month; the last one
Nth(y, m, wd, k) == LET f == Day(y, m, 1) IN f + ((wd - Weekday(f)) % 7) + 7 * (k - 1)
LastOf(y, m, wd) == LET l == (IF m = 12 THEN Day(y + 1, 1, 1) ELSE Day(y, m + 1, 1)) - 1 IN l - ((Weekday(l) - wd) % 7)
\* a holiday on a Saturday is kept on Friday, one on a Sunday on Monday
Observed(n) == IF Weekday(n) = 5 THEN n - 1 ELSE IF Weekday(n) = 6 THEN n + 1 ELSE n
Easter(y) ==
    LET a == y % 19   b == y \div 100   c == y % 100
        d == b \div 4   e == b % 4   f == (b + 8) \div 25   g == (b - f + 1) \div 3
        h == (19 * a + b - d - g + 15) % 30
        i == c \div 4   k == c % 4
        l == (32 + 2 * e + 2 * i - h - k) % 7
        m == (a + 11 * h + 22 * l) \div 451
    IN  Day(y, (h + l - 7 * m + 114) \div 31, ((h + l - 7 * m + 114) % 31) + 1)
\* New Year on a Saturday is not kept: the Friday belongs to the year before
NewYear(y) == LET n == Day(y, 1, 1) IN IF Weekday(n) = 5 THEN {} ELSE {Observed(n)}
Holidays(y) ==
    NewYear(y) \cup
    {Nth(y, 1, 0, 3), Nth(y, 2, 0, 3), Easter(y) - 2, LastOf(y, 5, 0), Observed(Day(y, 7, 4)),
     Nth(y, 9, 0, 1), Nth(y, 11, 3, 4), Observed(Day(y, 12, 25))}
    \cup (IF y >= 2022 THEN {Observed(Day(y, 6, 19))} ELSE {})
\* hurricane Sandy, mourning for G. H. W. Bush
Closures == {Day(2012, 10, 29), Day(2012, 10, 30), Day(2018, 12, 5)}
AllHolidays == UNION {Holidays(y) : y \in 2010 .. 2022} \cup Closures
\* the sample: returns from the second trading day of 2010 to the last of 2022
FirstDay == Day(2010, 1, 5)
LastDay == Day(2022, 12, 30)
TradingDays == {n \in FirstDay .. LastDay : Weekday(n) < 5 /\ n \notin AllHolidays}
=============================================================================
