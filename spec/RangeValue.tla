--------------------------------- MODULE RangeValue ---------------------------------
(***************************************************************************)
(* A range as a list of hands <<first card, second card, weight>>: how     *)
(* hands compare, what sorting and removing repeats make of a list, and    *)
(* what is left when cards are taken out of play.  The weight of a hand    *)
(* has no part in comparisons.                                             *)
(***************************************************************************)
EXTENDS Cards, TLC

\* By the rank of the first card, of the second, then the suits.
Key(h) == <<RankOf(h[1]), RankOf(h[2]), SuitOf(h[1]), SuitOf(h[2])>>
LessThan(g, h) == LET a == Key(g)
                      b == Key(h)
                  IN \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
SameHand(g, h) == g[1] = h[1] /\ g[2] = h[2]
\* The same order as a number.
Place(h) == ((RankOf(h[1]) * 13 + RankOf(h[2])) * 4 + SuitOf(h[1])) * 4 + SuitOf(h[2])

Free(h, cards) == h[1] \notin cards /\ h[2] \notin cards
Without(R, cards) == SelectSeq(R, LAMBDA h : Free(h, cards))

\* Here the weights number the mentions, so that it shows which of equal hands comes first.
Ascending(R) == SortSeq(R, LAMBDA g, h : Place(g) < Place(h) \/ (Place(g) = Place(h) /\ g[3] < h[3]))
\* Of neighbours that are the same hand the first stays.
RECURSIVE OncePerRun(_)
OncePerRun(R) == IF Len(R) < 2 THEN R
                 ELSE IF SameHand(R[Len(R)], R[Len(R) - 1]) THEN OncePerRun(SubSeq(R, 1, Len(R) - 1))
                 ELSE Append(OncePerRun(SubSeq(R, 1, Len(R) - 1)), R[Len(R)])
TextOf(h) == CardCps(h[1]) \o CardCps(h[2])
=====================================================================================
