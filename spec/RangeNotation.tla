----------------------------- MODULE RangeNotation -----------------------------
(***************************************************************************)
(* The notation of hand ranges: what one item of a range text means, and   *)
(* how a text is read item by item.  Texts are sequences of code points.   *)
(*                                                                         *)
(* An item is a set of cells (starting-hand classes) or one explicit hand, *)
(* with a weight.  Named deviations from what one might expect, which the  *)
(* implementation has and this specification states:                       *)
(*   - "KA+" and "AAs" are well formed and denote no hand;                 *)
(*   - a dash range may carry its 's' or 'o' on the first hand, or on both *)
(*     alike, but not on the second alone;                                 *)
(*   - '@' without digits is the default weight; a weight above 100 leaves *)
(*     the item with the default weight and the reading stops there;       *)
(*   - white space ends the reading.                                       *)
(***************************************************************************)
EXTENDS Cards

Comma == 44  Plus == 43  Dash == 45  AtSign == 64  LetterO == 111  LetterS == 115
Digit(x) == x \in 48..57
Cp(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
DefaultWeight == 100

\* ---- what is denoted -----------------------------------------------------
\* The cells of two ranks: <<kind, hi, lo>> with kind "p", "s" or "o".
Cells(a, b, suited, offsuited) ==
  LET hi == IF a >= b THEN a ELSE b
      lo == IF a >= b THEN b ELSE a
  IN IF a = b THEN (IF offsuited THEN { <<"p", a, a>> } ELSE {})
     ELSE (IF suited THEN { <<"s", hi, lo>> } ELSE {}) \cup (IF offsuited THEN { <<"o", hi, lo>> } ELSE {})

PlusCells(a, b, suited, offsuited) ==
  IF a = b THEN UNION { Cells(r, r, suited, offsuited) : r \in a..12 }
  ELSE UNION { Cells(a, r, suited, offsuited) : r \in { x \in 0..12 : b <= x /\ x < a } }

Between(x, y) == { r \in 0..12 : (x <= r /\ r <= y) \/ (y <= r /\ r <= x) }
SharedRanks(a, b, c, d) == {a, b} \cap {c, d}
\* A dash joins two pairs, or two unpaired hands that share a rank.
DashOK(a, b, c, d) == IF a = b THEN c = d ELSE c # d /\ SharedRanks(a, b, c, d) # {}
DashCells(a, b, c, d, suited, offsuited) ==
  IF a = b THEN UNION { Cells(r, r, suited, offsuited) : r \in Between(a, c) }
  ELSE LET x == CHOOSE r \in SharedRanks(a, b, c, d) : TRUE
           y == IF a = x THEN b ELSE a
           z == IF c = x THEN d ELSE c
       IN UNION { Cells(x, r, suited, offsuited) : r \in Between(y, z) }

\* The hands of a cell, as pairs <<higher card, lower card>>.
HigherFirst(x, y) == IF x > y THEN <<x, y>> ELSE <<y, x>>
HandsOfCell(cell) ==
  IF cell[1] = "p" THEN { HigherFirst(4 * cell[2] + s, 4 * cell[2] + u) : s \in Suits, u \in Suits } \ { <<x, x>> : x \in Deck }
  ELSE IF cell[1] = "s" THEN { <<4 * cell[2] + s, 4 * cell[3] + s>> : s \in Suits }
  ELSE { <<4 * cell[2] + p[1], 4 * cell[3] + p[2]>> : p \in { q \in Suits \X Suits : q[1] # q[2] } }
AllHands == { <<x, y>> \in Deck \X Deck : x > y }

\* ---- how it is written ---------------------------------------------------
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, p) == IF Digit(Cp(t, p)) THEN DigitsEnd(t, p + 1) ELSE p
RECURSIVE Number(_, _, _, _)
\* The number written at p..e-1, or 101 if it is above 100.
Number(t, p, e, acc) == IF p >= e THEN acc
                        ELSE LET n == acc * 10 + (t[p] - 48)
                             IN Number(t, p + 1, e, IF n > 100 THEN 101 ELSE n)

\* An optional weight at p: [w, next].
ReadWeight(t, p) ==
  IF Cp(t, p) # AtSign THEN [w |-> DefaultWeight, next |-> p]
  ELSE LET e == DigitsEnd(t, p + 1)
           n == Number(t, p + 1, e, 0)
       IN IF e = p + 1 \/ n > 100 THEN [w |-> DefaultWeight, next |-> p + 1]
          ELSE [w |-> n, next |-> e]

Malformed == [ok |-> FALSE, next |-> 0, cells |-> {}, hand |-> <<>>, w |-> 0]
Item(t, p, cells, hand) ==
  LET w == ReadWeight(t, p) IN [ok |-> TRUE, next |-> w.next, cells |-> cells, hand |-> hand, w |-> w.w]

\* The item that starts at p.  t is in lower case.
ReadItem(t, p) ==
  LET r1 == RankOfCp(Cp(t, p))
      s1 == SuitOfCp(Cp(t, p + 1))
  IN IF r1 = NoRank THEN Malformed
     ELSE IF s1 # NoSuit THEN                            \* two cards
       LET r2 == RankOfCp(Cp(t, p + 2))
           s2 == SuitOfCp(Cp(t, p + 3))
       IN IF r2 = NoRank \/ s2 = NoSuit \/ (r1 = r2 /\ s1 = s2) THEN Malformed
          ELSE Item(t, p + 4, {}, HigherFirst(4 * r1 + s1, 4 * r2 + s2))
     ELSE LET r2 == RankOfCp(Cp(t, p + 1)) IN
       IF r2 = NoRank THEN Malformed
       ELSE LET x   == Cp(t, p + 2)
                off == x = LetterO
                sui == x = LetterS
                q   == IF off \/ sui THEN p + 3 ELSE p + 2
                su  == ~off
                of  == ~sui
            IN IF Cp(t, q) = Plus THEN Item(t, q + 1, PlusCells(r1, r2, su, of), <<>>)
               ELSE IF Cp(t, q) = Dash THEN
                 LET r3 == RankOfCp(Cp(t, q + 1))
                     r4 == RankOfCp(Cp(t, q + 2))
                     y  == Cp(t, q + 3)
                     marked == y = LetterO \/ y = LetterS
                     e  == IF marked THEN q + 4 ELSE q + 3
                 IN IF r3 = NoRank \/ r4 = NoRank THEN Malformed
                    ELSE IF marked /\ y # x THEN Malformed
                    \* a second mark of the other kind would contradict the first
                    ELSE IF y = LetterO /\ Cp(t, e) = LetterS THEN Malformed
                    ELSE IF ~DashOK(r1, r2, r3, r4) THEN Malformed
                    ELSE Item(t, e, DashCells(r1, r2, r3, r4, su, of), <<>>)
               ELSE Item(t, q, Cells(r1, r2, su, of), <<>>)

ItemHands(it) == IF it.hand # <<>> THEN { it.hand } ELSE UNION { HandsOfCell(c) : c \in it.cells }

RandomText == <<114, 97, 110, 100, 111, 109>>

\* All items read, from position p on (t in lower case).
RECURSIVE ItemsFrom(_, _)
ItemsFrom(t, p) ==
  LET it == ReadItem(t, p) IN
  IF ~it.ok THEN <<>>
  ELSE IF Cp(t, it.next) = Comma THEN <<it>> \o ItemsFrom(t, it.next + 1)
  ELSE <<it>>

\* Weighted hands of a list of items; the first mention of a hand decides.
RECURSIVE Union(_, _)
Union(items, acc) ==
  IF items = <<>> THEN acc
  ELSE LET it  == Head(items)
           had == { <<h[1], h[2]>> : h \in acc }
       IN Union(Tail(items), acc \cup { <<h[1], h[2], it.w>> : h \in ItemHands(it) \ had })

\* The range a text stands for: a set of <<higher card, lower card, weight>>.
RangeOf(text) ==
  IF Lower(text) = RandomText THEN { <<h[1], h[2], DefaultWeight>> : h \in AllHands }
  ELSE Union(ItemsFrom(Lower(text), 1), {})

WellFormed(R) ==
  /\ \A h \in R : h[1] \in Deck /\ h[2] \in Deck /\ h[1] > h[2] /\ h[3] \in 0..100
  /\ \A g, h \in R : g[1] = h[1] /\ g[2] = h[2] => g = h
================================================================================
