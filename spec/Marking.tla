--------------------------------- MODULE Marking ---------------------------------
(***************************************************************************)
(* Text in a field of Width octets (C21).  A writer makes up text out of    *)
(* characters of one to four octets; the field is Width octets whatever the *)
(* text is; a receiver reads what the field holds.  Any octets may also     *)
(* arrive in a field: the receiver drops the zeros at the end and reads     *)
(* what is well-formed.                                                     *)
(***************************************************************************)
EXTENDS Wire, Utf8, Integers, TLC

CONSTANTS Width, MaxChars

(* one character of every length, the first and last of each range, NUL and blank *)
Chars == {<<0>>, <<32>>, <<65>>, <<127>>, <<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<239, 191, 191>>,
          <<237, 159, 191>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>}

VARIABLES text, n
vars == <<text, n>>
Init == text = <<>> /\ n = 0
Type == n < MaxChars /\ n' = n + 1 /\ \E c \in Chars : text' = text \o c
Spec == Init /\ [][Type]_vars

Field == TextOctets(text, Width)
Back == TrimZeros(Field)
Fixed == Len(Field) = Width
WellFormed == ValidUtf8(text) /\ ValidUtf8(Field)
CutToFit == IsPrefixOf(Back, text)
Unchanged == (Len(text) <= Width /\ (text = <<>> \/ text[Len(text)] # 0)) => Back = text
Stable == TextOctets(Back, Width) = Field
(* nothing that would have fit is cut off: a whole character more would not *)
Greedy == Len(text) > Width =>
            LET m == CutAt(text, Width) IN
            /\ m <= Width /\ m > Width - 4
            /\ ValidUtf8(SubSeq(text, 1, m))
            /\ CharAt(text, m + 1) > Width - m
=============================================================================
