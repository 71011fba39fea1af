----------------------------- MODULE MCNakedOS -----------------------------
EXTENDS NakedOSModel
AllAsked == {"C04", "C05", "C06", "C07", "C08", "C09"}
McFileOf(a) == IF a - 57088 \in FileNums THEN a - 57088 ELSE 0
AAA == <<65, 65, 65>>
BBB == <<66, 66, 66>>
n05 == <<48, 53>>
n85 == <<68, 70, 56, 53>>
McTargets == {n05, n85, AAA, BBB, n05 \o <<58>> \o AAA, n85 \o <<58>> \o AAA, n85 \o <<58>> \o BBB}
McTargetsSmall == {n05, AAA, BBB, n85 \o <<58>> \o AAA}
McFiles == {3, 4, 5, 133}
McFiles3 == {3, 4, 5, 6, 133}
=============================================================================
