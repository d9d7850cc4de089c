------------------------------ MODULE CardTextModel ------------------------------
(***************************************************************************)
(* Model checking of CardText: texts are written symbol by symbol, and     *)
(* sets card by card; every reader is asked about each.                    *)
(***************************************************************************)
EXTENDS CardText, TLC
CONSTANTS Alphabet, MaxLen, MaxCards
VARIABLES text, cards
vars == <<text, cards>>
Init == text = <<>> /\ cards = {}
WriteSymbol(x) == cards = {} /\ Len(text) < MaxLen /\ text' = Append(text, x) /\ UNCHANGED cards
AddCard(c) == text = <<>> /\ Cardinality(cards) < MaxCards /\ (\A d \in cards : d < c) /\ cards' = cards \cup {c} /\ UNCHANGED text
Next == (\E x \in Alphabet : WriteSymbol(x)) \/ (\E c \in Deck : AddCard(c))
Spec == Init /\ [][Next]_vars

RoundTrip == ReadMask(TextOfSet(cards)) = cards
OneText == Cardinality(cards) = 1 => LET c == CHOOSE x \in cards : TRUE IN ReadCard(CardCps(c)) = c /\ ReadFirst(CardCps(c)) = c
FlopRoundTrip == Cardinality(cards) = 3 => ReadFlop(TextOfSet(cards)) = SeqOfSet(cards)
\* No reader makes a card that was not written: every card read is at an odd
\* place in the text without white space.
Squeezed == SelectSeq(text, LAMBDA x : ~IsWhite(x))
Written == { PairCard(Lower(Squeezed), i) : i \in 1..(Len(Squeezed) \div 2) }
OnlyWritten == /\ ReadMask(text) \subseteq Written
               /\ ReadCard(text) # Error => ReadCard(text) \in Written
               /\ Range(ReadFlop(text)) \subseteq Written
               /\ ReadFlop(text) # <<>> => Len(ReadFlop(text)) = 3 /\ Len(Squeezed) = 6
Agree == ReadCard(text) # Error => ReadMask(text) = {ReadCard(text)}
==================================================================================
