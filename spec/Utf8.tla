---------------------------------- MODULE Utf8 ----------------------------------
(* Well-formed UTF-8 (RFC 3629): which octet strings are text at all.            *)
EXTENDS Naturals, Sequences

Cont == 128..191
(* The number of octets the character that starts at position i takes, 0 if  *)
(* there is no well-formed character there.                                  *)
CharAt(s, i) ==
  LET b == s[i]
      has(k) == i + k - 1 <= Len(s)
      t(k) == s[i + k] \in Cont
  IN CASE b \in 0..127 -> 1
       [] b \in 194..223 -> IF has(2) /\ t(1) THEN 2 ELSE 0
       [] b = 224 -> IF has(3) /\ s[i + 1] \in 160..191 /\ t(2) THEN 3 ELSE 0
       [] b \in (225..236) \cup {238, 239} -> IF has(3) /\ t(1) /\ t(2) THEN 3 ELSE 0
       [] b = 237 -> IF has(3) /\ s[i + 1] \in 128..159 /\ t(2) THEN 3 ELSE 0
       [] b = 240 -> IF has(4) /\ s[i + 1] \in 144..191 /\ t(2) /\ t(3) THEN 4 ELSE 0
       [] b \in 241..243 -> IF has(4) /\ t(1) /\ t(2) /\ t(3) THEN 4 ELSE 0
       [] b = 244 -> IF has(4) /\ s[i + 1] \in 128..143 /\ t(2) /\ t(3) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == i > Len(s) \/ (LET n == CharAt(s, i) IN n > 0 /\ Utf8From(s, i + n))
ValidUtf8(s) == Utf8From(s, 1)
=============================================================================
