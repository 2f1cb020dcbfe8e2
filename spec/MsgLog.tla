------------------------------- MODULE MsgLog -------------------------------
(* The message log of an HSMS endpoint.  A configuration
     [en, mode ("unset", "sml", "bin", "both"), ctrl, excl (control types left out), w (which writer)]
   and a frame (a direction and the bytes on the wire) decide whether the frame
   has an entry, in which log, and what the entry says: the header of the message
   in words, and, by the mode, its text as SML, which read again is this
   message, and its bytes.                                                     *)
EXTENDS Secs2, TLC
Off == [en |-> FALSE, mode |-> "unset", ctrl |-> FALSE, excl |-> {}, w |-> 0]
Sml(c) == c.mode \in {"unset", "sml", "both"}
Bin(c) == c.mode \in {"bin", "both"}
IsData(b) == b[10] = 0
Logged(c, b) == c.en /\ (IsData(b) \/ (c.ctrl /\ TypeName(b[10]) \notin c.excl))
Sess(b) == b[5]*256 + b[6]
Sys(b) == SubSeq(b, 11, 14)
Header(b) == IF IsData(b) THEN << b[7] % 128, b[8], Sess(b), b[7] \div 128 >> ELSE << Sess(b), b[8] >>
\* A control message has its words only with SML; a data message always.
Entry(c, dir, b) ==
  [ dir |-> dir, kind |-> IF IsData(b) THEN "data" ELSE "ctrl",
    type |-> IF IsData(b) THEN "" ELSE IF Sml(c) THEN TypeName(b[10]) ELSE "",
    head |-> IF IsData(b) \/ Sml(c) THEN Header(b) ELSE <<>>,
    sys |-> IF IsData(b) \/ Sml(c) THEN Sys(b) ELSE <<>>,
    sml |-> IF IsData(b) /\ Sml(c) THEN b ELSE <<>>,
    bin |-> IF Bin(c) THEN b ELSE <<>> ]
Entries(c, dir, fs) == FoldLeft(LAMBDA acc, b : IF Logged(c, b) THEN Append(acc, Entry(c, dir, b)) ELSE acc, <<>>, fs)
=============================================================================
