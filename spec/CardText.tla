-------------------------------- MODULE CardText --------------------------------
(***************************************************************************)
(* Card texts and sets of cards.  Four readers exist and differ in what    *)
(* they accept:                                                            *)
(*   ReadMask  - cards one after the other in any letter case, nothing     *)
(*               else; anything else is the empty set;                     *)
(*   ReadCard  - one card; the suit in lower case;                         *)
(*   ReadFirst - the card at the start of a text, like ReadCard;           *)
(*   ReadFlop  - three different cards with white space between them only. *)
(***************************************************************************)
EXTENDS Cards

Error == 99
IsWhite(x) == x \in (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

CardOf(r, s) == IF r = NoRank \/ s = NoSuit THEN Error ELSE 4 * r + s

\* ---- sets of cards
RECURSIVE TextFrom(_)
TextFrom(cs) == IF cs = <<>> THEN <<>> ELSE CardCps(Head(cs)) \o TextFrom(Tail(cs))
TextOfSet(S) == TextFrom(SeqOfSet(S))

PairCard(t, i) == CardOf(RankOfCp(t[2 * i - 1]), SuitOfCp(t[2 * i]))
ReadMaskLower(t) ==
  IF Len(t) % 2 # 0 THEN {}
  ELSE LET cards == { PairCard(t, i) : i \in 1..(Len(t) \div 2) }
       IN IF Error \in cards THEN {} ELSE cards
ReadMask(t) == ReadMaskLower(Lower(t))

\* ---- single cards
ReadFirst(t) == IF Len(t) < 2 THEN Error ELSE CardOf(RankOfCp(LowerAscii(t[1])), SuitOfCp(t[2]))
ReadCard(t) == IF Len(t) # 2 THEN Error ELSE ReadFirst(t)

\* ---- flops, as a machine over positions: p is the next character
RECURSIVE SkipWhite(_, _)
SkipWhite(t, p) == IF p <= Len(t) /\ IsWhite(t[p]) THEN SkipWhite(t, p + 1) ELSE p
Rest(t, p) == SubSeq(t, p, Len(t))
ReadFlop(t) ==
  LET p2 == SkipWhite(t, 3)
      p3 == SkipWhite(t, p2 + 2)
      a == ReadFirst(t)
      b == ReadFirst(Rest(t, p2))
      c == ReadFirst(Rest(t, p3))
      S == {a, b, c}
  IN IF Error \in S \/ Cardinality(S) # 3 \/ p3 + 1 # Len(t) THEN <<>> ELSE SeqOfSet(S)

\* ---- hole cards: written as the set they are
TextOfHole(a, b) == TextOfSet({a, b})
==================================================================================
