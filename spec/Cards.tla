-------------------------------- MODULE Cards --------------------------------
(***************************************************************************)
(* Cards, their texts, and sets of cards.                                  *)
(* A card is 4 * rank + suit, with rank 0 = deuce ... 12 = ace, and the    *)
(* suits spades, hearts, clubs, diamonds.  Text is a sequence of code      *)
(* points, so that every Unicode text can be stated.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Deck == 0..51
RankOf(c) == c \div 4
SuitOf(c) == c % 4
Suits == 0..3

\* Lower case code points of the rank and suit characters, by rank and suit.
RankCp == <<50, 51, 52, 53, 54, 55, 56, 57, 116, 106, 113, 107, 97>>   \* 2..9 t j q k a
SuitCp == <<115, 104, 99, 100>>                                        \* s h c d
NoRank == 99
NoSuit == 99
RankOfCp(x) == IF \E i \in 1..13 : RankCp[i] = x THEN (CHOOSE i \in 1..13 : RankCp[i] = x) - 1 ELSE NoRank
SuitOfCp(x) == IF \E i \in 1..4 : SuitCp[i] = x THEN (CHOOSE i \in 1..4 : SuitCp[i] = x) - 1 ELSE NoSuit

\* Upper case rank characters, lower case suit characters: how cards are written.
RankStr == <<"2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A">>
SuitStr == <<"s", "h", "c", "d">>
CardStr(c) == RankStr[RankOf(c) + 1] \o SuitStr[SuitOf(c) + 1]
RankUpCp == <<50, 51, 52, 53, 54, 55, 56, 57, 84, 74, 81, 75, 65>>
CardCps(c) == <<RankUpCp[RankOf(c) + 1], SuitCp[SuitOf(c) + 1]>>

\* Lower-casing, as far as it can lead to a character of the notation:
\* besides A-Z only the Kelvin sign has a lower case among them.
LowerAscii(x) == IF x \in 65..90 THEN x + 32 ELSE x
LowerCp(x) == IF x = 8490 THEN 107 ELSE LowerAscii(x)
\* A capital I with dot lower-cases to two characters.
RECURSIVE LowerFrom(_, _)
LowerFrom(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE (IF t[i] = 304 THEN <<105, 775>> ELSE <<LowerCp(t[i])>>) \o LowerFrom(t, i + 1)
Lower(t) == LowerFrom(t, 1)

RECURSIVE SeqOfSet(_)
\* The elements of a finite set of naturals in ascending order.
SeqOfSet(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOfSet(S \ {m})
Range(s) == { s[i] : i \in DOMAIN s }
==============================================================================
