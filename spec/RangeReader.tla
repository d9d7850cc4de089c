------------------------------ MODULE RangeReader ------------------------------
(***************************************************************************)
(* Reading a range text as a state machine: the reader takes an item, then *)
(* a comma, and halts where the text departs from the notation.  Texts are *)
(* grown symbol by symbol over a small alphabet, so TLC visits every text  *)
(* up to MaxLen; the range each stands for is printed for replay.          *)
(***************************************************************************)
EXTENDS RangeNotation, TLC, Json
CONSTANTS Alphabet, MaxLen, Dump

VARIABLES text, pos, items, phase
vars == <<text, pos, items, phase>>

Init == text = <<>> /\ pos = 1 /\ items = <<>> /\ phase = "write"
Write(x) == phase = "write" /\ Len(text) < MaxLen /\ text' = Append(text, x) /\ UNCHANGED <<pos, items, phase>>
StartReading == phase = "write" /\ phase' = "item" /\ UNCHANGED <<text, pos, items>>
TakeItem == /\ phase = "item" /\ ReadItem(text, pos).ok
            /\ items' = Append(items, ReadItem(text, pos))
            /\ pos' = ReadItem(text, pos).next
            /\ phase' = "comma" /\ UNCHANGED text
TakeComma == phase = "comma" /\ Cp(text, pos) = Comma /\ pos' = pos + 1 /\ phase' = "item" /\ UNCHANGED <<text, items>>
Halt == /\ \/ phase = "item" /\ ~ReadItem(text, pos).ok
           \/ phase = "comma" /\ Cp(text, pos) # Comma
        /\ phase' = "done" /\ UNCHANGED <<text, pos, items>>
Next == (\E x \in Alphabet : Write(x)) \/ StartReading \/ TakeItem \/ TakeComma \/ Halt
Spec == Init /\ [][Next]_vars

\* The reader never goes back and never past the end.
PosOK == pos \in 1..(Len(text) + 1)
Forward == [][pos' >= pos]_vars
\* What has been read is the range of the text read so far.
ReadOK == phase = "done" => Union(items, {}) = RangeOf(text)
RangeOK == phase = "done" => WellFormed(Union(items, {}))
ItemsOK == \A i \in DOMAIN items : items[i].w \in 0..100 /\ items[i].next <= Len(text) + 1
\* Writing an item twice changes nothing.
Idempotent == phase = "done" => Union(items \o items, {}) = Union(items, {})
Emit == (phase # "done" \/ ~Dump) \/ items = <<>>
        \/ PrintT("RR " \o ToJson([t |-> text, i |-> [k \in DOMAIN items |-> [w |-> items[k].w, h |-> items[k].hand, c |-> items[k].cells]]]))
================================================================================
