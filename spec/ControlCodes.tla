---------------------------- MODULE ControlCodes ----------------------------
(* Control characters as diskii shows them.                                  *)
EXTENDS Bytes

\* Control characters made visible, in chevrons (UTF-8).
Left == <<194, 171>>
Right == <<194, 187>>
CodeName(c, esc) ==
    CASE c = 0 -> <<78, 85, 76>>
      [] c \in 1..26 -> <<99, 116, 114, 108, 45, 64 + c>>
      [] c = 27 -> esc
      [] c = 28 -> <<70, 83>>
      [] c = 29 -> <<71, 83>>
      [] c = 30 -> <<82, 83>>
      [] c = 31 -> <<85, 83>>
Escapes == {<<63>>, <<69, 83, 67>>}   \* "?" or "ESC"
Visible(s, esc) ==
    Concat(TLCEval([i \in 1..Len(s) |-> IF s[i] < 32 /\ s[i] \notin {9, 10} THEN Left \o CodeName(s[i], esc) \o Right ELSE <<s[i]>>]))
=============================================================================
