#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
SIM="src/equity_calculator/simulator.rs"; CR="src/equity_calculator/combined_range.rs"
HR="src/hand_range.rs"; HE="src/hand_evaluator/hand.rs"; CARDS="src/hand_evaluator/cards.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Hand scores rank hands by the rules of poker",
  "For any two hands of at most seven distinct cards, the scores the evaluator gives compare exactly as the best five-card poker hands that can be made from them (equal scores exactly when those are equal in strength), and the score divided by 4096 is the category from 1 (high card) to 9 (straight flush). A hand of fewer than five cards is ranked on the cards it has, a missing kicker being lower than any card. The variant that ignores flushes gives the same score on every hand that has no five cards of one suit.",
  ["inputs"],"every set of 0 to 7 cards of the 52 (about 157 million hands), and every pair of them for the order",
  "The unit tests never look at a score; they check counters and flush keys of five hands. The lookup tables have 86362 + 8192 + 8191 entries, any of which can be wrong alone.",
  [HE,"src/lookup.rs","src/flush_lookup.rs","src/hash_offsets.rs","src/constants.rs",CARDS],
  [("perfect hash of the rank key into the score table","src/hand_evaluator/hand.rs Hand::evaluate, evaluate_without_flush"),("flush table on the suit's rank mask","src/hand_evaluator/hand.rs get_flush_key")],
  ["Hand::evaluate","Hand::evaluate_without_flush"],
  [dict(name="LOOKUP / PERF_HASH_OFFSETS / LOOKUP_FLUSH",meaning="score of each rank multiset and each flush",where="src/lookup.rs, src/hash_offsets.rs, src/flush_lookup.rs")])
p("C02","A hand is the set of cards put into it",
  "However a hand of up to seven distinct cards is put together (starting from the empty hand, hole cards or a card mask, and adding single cards or hole cards in any order), it is the same hand with the same score, and two different sets of cards are never equal hands. Its card count, number of cards per suit, ranks present per suit and overall, membership test and flush indication are those of that set of cards.",
  ["inputs","histories"],"every set of cards and every order and grouping in which it can be assembled",
  "Seven fixed hands are tested, each assembled in one order, two of them for membership-like facts.",
  [HE,CARDS,"src/constants.rs"],
  [("per-card keys summed, masks joined","src/hand_evaluator/cards.rs CARDS; hand.rs Add, AddAssign, from_hole_cards, from_bit_mask"),("counters in the key's upper half","hand.rs count, suit_count, has_flush")],
  ["Hand::{from_hole_cards, from_bit_mask, contains, count, suit_count, get_suit_mask, get_rank_mask, has_flush, get_flush_key, ==}"])
p("C03","Starting hands and their indices correspond one to one",
  "Every unordered pair of distinct cards has exactly one index from 0 to 1325, the same in either card order and however it is obtained, and it is the position of that hand in the published list of hand names; the first 78 are the pairs, the next 312 the suited and the last 936 the offsuit hands. The 169 starting-hand classes are listed in the same order as consecutive blocks of 6, 4 and 12 hands. Looking up a result by hand name or class name returns exactly the entry of that hand or class for that player, and an error for any other name.",
  ["inputs"],"all 1326 pairs in both orders, all 169 classes, all players, any text as a name",
  "No test reads an index or a name; the tables have 1326, 3837, 1326 and 169 hand-written entries.",
  [HE,"src/map.rs","src/string_lookup.rs",SIM],
  [("index tables","src/map.rs CARD_MAP, MASK_MAP"),("name tables and their inverse maps","src/string_lookup.rs"),("lookup by name","src/equity_calculator/simulator.rs get_hand_result, get_combo_result")],
  ["get_card_index","Hand::get_card_index","INDEX_TO_HAND / HAND_TO_INDEX / INDEX_TO_COMBO / COMBO_TO_INDEX","SimulationResults::get_hand_result, get_combo_result"])
p("C04","A range item denotes exactly the hands its notation means",
  "One item of a range text stands for exactly these hands: 'XY' all hands of those two ranks, with 's' the suited and with 'o' the offsuit ones (pairs count as offsuit only), 'XY+' (X above Y) the same with Y up to just below X, 'XX+' that pair and all higher ones, and a dash between two items that share a rank (or two pairs) everything between them inclusive in either order; four characters naming two cards stand for that hand alone. The optional '@w' with w from 0 to 100 gives each of them that weight, otherwise it is 100. Letter case does not matter, and 'random' is all 1326 hands.",
  ["inputs"],"every item the notation allows: 169 rank pairs x suitedness x (plain, plus, dash with 169 rank pairs) x weights, and all 2652 explicit hands",
  "Nine texts are tested, and only the number of hands they give; no test looks at which hands, at any dash item, or at a weight.",
  [HR],
  [("recursive descent over the characters","src/hand_range.rs parse_hand, parse_combos_dash, parse_weight"),("expansion","src/hand_range.rs add_combos, add_combos_plus, add_combos_dash, add_all")],
  ["HandRange::from_string","HandRange::hands"])
p("C05","Any range text yields a well-formed range: the union of its items",
  "For any text whatever, reading a range never panics and gives a list of distinct hands, each two different cards with the higher card first and a weight from 0 to 100. The result is the union of the comma-separated items up to the first place where the text departs from the notation; if a hand is named more than once its first mention decides its weight. Reading several texts gives, in order, what reading each one gives.",
  ["inputs"],"every string (all of Unicode, any length), and every list of items with overlaps and differing weights",
  "One overlapping and one weighted text are tested, by number of hands; no malformed text is.",
  [HR],
  [("item loop","src/hand_range.rs from_string"),("stable sort and removal of repeated hands","src/hand_range.rs remove_duplicates, Ord for Combo")],
  ["HandRange::from_string","HandRange::from_strings"])
p("C06","Card texts and card sets translate both ways without loss",
  "Writing a set of cards as text and reading it back gives the same set, and every card has one text and every well-formed text one card. Reading a text that is not a sequence of known cards gives the empty set, or an error where the reader returns a result; it never panics and never yields a card that was not written. A flop is accepted only if it is exactly three different cards (white space between them allowed) and is returned in ascending order.",
  ["inputs"],"all sets of cards and every string",
  "Two characters each of rank and suit are tested; no mask, card or flop text is.",
  [HR,"src/constants.rs"],
  [("character tables","src/hand_range.rs char_to_rank, char_to_suit; src/constants.rs RANK_TO_CHAR, SUIT_TO_CHAR"),("readers and writers","src/hand_range.rs get_card_mask, mask_to_string, card_to_string, card_from_str, card_from_chars, flop_from_str, hole_to_string, Display for Combo")],
  ["get_card_mask, mask_to_string, card_to_string, card_from_str, flop_from_str, hole_to_string, holes_to_strings, Combo::to_string"])
p("C07","Exact equity equals full enumeration",
  "An exact calculation counts every way to deal each player a hand of their range and to complete the board to five cards, all cards distinct and none of them dead, exactly once and with the product of the hands' weights. The reported wins, ties (each tied player the weight divided by the number who tie), wins by set of winners and equities are, up to one common factor, those of the best hand winning each deal. The shortcuts taken for suits that cannot matter do not change any of them.",
  ["inputs","configurations"],"all lists of 2 to 9 ranges with weights, boards of 0 to 5 cards, and sets of dead cards",
  "Two inputs are tested (one preflop, one with four board cards), both heads-up and comparing one equity, and they are left out of the stable list; the recursion's cases depend on suits, ranks, board size and number of players.",
  [SIM,CR,"src/fastdivide.rs",HE],
  [("enumeration of hole card combinations","src/equity_calculator/simulator.rs enumerate_all"),("suit-isomorphic board enumeration with multiplicities","simulator.rs enumerate_board, enumerate_board_rec"),("showdown","simulator.rs evaluate_hands")],
  ["exact_equity","SimulationResults::{wins, ties, wins_by_mask, equities}"])
p("C08","Each hand's own result is the result of the deals it was in",
  "After an exact calculation, a player's result for a hand of their range has the total, win and tie weight of just the deals in which that player held it (ties also divided by the number who tie), with equity, win rate and tie rate the corresponding quotients, in the same units as the players' overall results. A hand outside the range, or one that shares a card with the board or the dead cards, is marked not valid and has zero in every count. A hand of the range is marked valid and carries its weight.",
  ["inputs","configurations"],"all ranges, boards, dead cards and numbers of players; all 1326 hands of every player",
  "No test reads a per-hand result.",
  [SIM,HE],
  [("per-hand counters indexed by player and hand","src/equity_calculator/simulator.rs evaluate_hands, UnitResults, AddAssign"),("weights and validity","simulator.rs save_hand_weights, fix_hand_weights")],
  ["SimulationResults::hand_results"])
p("C09","Exact results do not depend on threads or their schedule",
  "For any number of threads and any interleaving of them, an exact calculation that is not cancelled examines every combination of hole cards exactly once, loses and double-counts nothing when threads hand in their results, and ends. All its integer results are identical for every number of threads and every schedule, and the others up to rounding.",
  ["schedules","configurations"],"all interleavings of 1 to 255 worker threads, of the batches they reserve and the results they hand in",
  "Each test runs one schedule; a lost update or a batch reserved twice needs a particular interleaving.",
  [SIM,"src/fastdivide.rs"],
  [("batches reserved under a lock","src/equity_calculator/simulator.rs reserve_batch, enum_pos"),("results handed in under a lock, and once more at the end","simulator.rs update_results, enumerate_all"),("mixed-radix decoding of a position","simulator.rs enumerate_all; src/fastdivide.rs")],
  ["exact_equity","events Reserve/Examine/HandIn of the hook"],
  [dict(name="enum_pos",meaning="first combination not yet reserved",where="src/equity_calculator/simulator.rs"),dict(name="results",meaning="sum of everything handed in",where="src/equity_calculator/simulator.rs")],
  "guarded events at reserving a batch, examining a combination and handing in results")
p("C10","Every successful result is consistent with itself",
  "In every result returned, exact or sampled, complete or cancelled: equities are numbers between 0 and 1 that sum to 1; the wins by set of winners add up to every player's wins and ties and, for each player, to the sum of that player's hands' totals, wins and ties; and no set of winners is empty. Every equity, win rate and tie rate is the quotient of the counts beside it, and none of these numbers is infinite or not a number.",
  ["inputs","configurations","schedules"],"all calculations that return a result, of both kinds, with any ranges, threads and moment of cancellation",
  "The tests read a single equity of complete heads-up calculations.",
  [SIM],
  [("one showdown updates all counters","src/equity_calculator/simulator.rs evaluate_hands"),("summing batches","simulator.rs update_results"),("quotients","simulator.rs get_equity, generate_final_data")],
  ["exact_equity","approx_equity","SimulationResults"])
p("C11","Class results aggregate the hands of each class",
  "For each player and each of the 169 starting-hand classes, the class result has the sums of the totals, wins and ties of the class's hands that were dealt, equity and rates that are the quotients of these sums, and as weight the sum of those hands' weights over the number of hands in the class. A class none of whose hands was dealt is marked not valid and is zero throughout.",
  ["inputs","configurations"],"all results, players and classes",
  "No test reads a class result.",
  [SIM],[("aggregation in blocks of 6, 4 and 12","src/equity_calculator/simulator.rs generate_final_data")],
  ["SimulationResults::combo_results","get_combo_result"])
p("C12","Board results group hands by what they have made so far",
  "With three or more board cards, every valid hand carries the category it makes with the board (0 high card to 8 straight flush), and each player's result for a category sums the totals, wins and ties of exactly the hands with that category, with equity, win rate and tie rate (here the share of split pots) the quotients. With three or four board cards the draw results likewise sum the hands showing each draw, the nut-flush entries being split into backdoor, draw and made; with a full board no hand shows a draw. Without at least three board cards all board results are zero, and no hand carries a category or a draw.",
  ["inputs","configurations"],"all boards and ranges, all hands of every player",
  "No test reads a board result.",
  [SIM,HE],[("category and draws of each hand","src/equity_calculator/simulator.rs set_ranks"),("grouping","simulator.rs generate_board_data")],
  ["SimulationResults::{board_results, board_draws}","hand_results[..].rank/.draw"])
p("C13","A cancelled calculation stops soon and returns what it has",
  "Once the cancel token is set, by any thread at any moment, every worker evaluates at most one more portion of bounded size and the call returns, with the results of everything evaluated so far and nothing else. A calculation whose token is never set is not cut short, and a calculation never changes the caller's token, so calculations that share one do not cancel each other.",
  ["schedules","fault_sequences"],"every moment of cancellation relative to every worker's steps, and every sequence of calculations sharing a token",
  "No test sets the token.",
  [SIM],[("token read after each handing-in","src/equity_calculator/simulator.rs enumerate_all, sim_random_walk_monte_carlo, is_stopped")],
  ["exact_equity, approx_equity with a shared token","events of the hook"],None,"guarded events at handing in results")
p("C14","Sampled deals are legal and drawn without bias",
  "Every deal a Monte Carlo calculation evaluates gives each player a hand of their own range and completes the board to five cards, all distinct and none of them dead, and counts it with the product of the hands' weights. Every combination of hands that can be dealt together is drawn equally often in the long run, and every completion of the board equally often given the hands. Hands that can never be dealt together with the others are never counted.",
  ["inputs","histories"],"all ranges, boards and dead cards; every step of the random walk over combinations; every random outcome",
  "The one sampled test checks an equity to within 0.01 heads-up, fails now and then, and is left out of the stable list.",
  [SIM,CR],[("rejection sampling of a starting point","src/equity_calculator/simulator.rs randomize_hole_cards"),("walk to the previous combination that fits","simulator.rs sim_random_walk_monte_carlo"),("random board","simulator.rs randomize_board")],
  ["approx_equity: hand_results, wins_by_mask","event Deal of the hook"],None,"guarded event per evaluated deal")
p("C15","A sampled estimate stops at the precision asked for",
  "A Monte Carlo calculation that is not cancelled ends by itself only once the standard deviation it reports, computed from the first player's share in the batches it has really sampled and from at least ten of them, is below the target; workers then hand in what they were at and end. The reported sums, number of batches and hands evaluated are those of the batches evaluated, all of the same size and independent of each other, and the reported deviation follows from them. The first player's equity agrees with the exact one to within a few times that deviation.",
  ["schedules","histories","inputs"],"all ranges, targets, thread counts and interleavings of the batches handed in",
  "No test reads the deviation or the number of batches; one compares an equity with a tolerance ten times the target.",
  [SIM],[("running sums and stopping rule","src/equity_calculator/simulator.rs update_results")],
  ["approx_equity: stdev, batch_count, batch_sum, batch_sum2, eval_count, equities","event HandIn of the hook"],None,"guarded event at handing in results")
p("C16","Progress reports are percentages and follow the work",
  "Every value passed to the progress callback is between 0 and 100. In an exact calculation they never decrease, are the share of the combinations taken up so far, and end with 100 when it completes; each result handed in is reported once, on the caller's thread, before the call returns.",
  ["schedules","inputs"],"all inputs, numbers of threads and interleavings",
  "Every test passes a callback that ignores its argument.",
  [SIM],[("messages sent while holding the results lock and received by the caller","src/equity_calculator/simulator.rs update_results, exact_equity, approx_equity")],
  ["the callback of exact_equity and approx_equity"])
p("C17","Unusable input is refused with the right error, never a panic",
  "A calculation is refused with an error naming the first of these that applies: fewer than two ranges, more than nine, more than five board cards, or too few cards left for the hands and a board; and with a conflict error when the players cannot all be dealt a hand of their ranges with the board and dead cards given. Both kinds of calculation decide alike, and every other input yields a result.",
  ["inputs","configurations"],"all numbers of ranges, board and dead card sets, and ranges that conflict with them or each other, pairwise or only jointly",
  "No test passes unusable input.",
  [SIM,CR],[("checks at entry","src/equity_calculator/simulator.rs exact_equity, approx_equity"),("emptiness of the combined ranges","combined_range.rs from_ranges; simulator.rs")],
  ["Result of exact_equity and approx_equity"])
p("C18","Combining ranges keeps exactly the compatible hand combinations",
  "Combining players' ranges yields groups in which every player occurs exactly once, and each group holds every choice of one hand per player of the group without a shared card, exactly once and nothing else, with each hand's cards, weight and evaluated form in the place of its player and the set of all its cards. Groups that could be joined into fewer than 10000 combinations are joined, so ranges that conflict pairwise are found out; shuffling changes only the order.",
  ["inputs"],"all lists of up to nine ranges",
  "Tests only check that combined ranges are not empty.",
  [CR],[("greedy pairwise joining","src/equity_calculator/combined_range.rs from_ranges, join, estimate_join_size")],
  ["CombinedRange::{from_ranges, players, combos, size, player_count, shuffle}"])
p("C19","Fast division is division",
  "For every divisor from 1 to 2^64-1 and every dividend up to 2^64-1, division by the prepared divider gives the integer quotient.",
  ["inputs"],"2^64 - 1 divisors x 2^64 dividends",
  "102 divisors up to 100 and powers of two are tested with dividends up to 2^43; errors of the method show only at large dividends or awkward divisors.",
  ["src/fastdivide.rs"],[("power of two, 64-bit magic, 65-bit magic","src/fastdivide.rs divide_by, fast_path, general_path, divide")],
  ["DividerU64::divide_by, divide, u64 / DividerU64"])
p("C20","Weights count in proportion, up to nine players, without overflow",
  "Multiplying the weights of a range by a common factor changes no equity, a hand of weight zero counts for nothing, and a hand of weight 2w counts twice one of weight w. This holds for two to nine players, both ways of calculating, without overflow. The weights reported for the hands are those given.",
  ["inputs","configurations"],"all weightings of ranges and all numbers of players",
  "The weight tests look at intermediate weights of two ranges, and at one heads-up equity.",
  [SIM],[("weights reduced and multiplied per deal","src/equity_calculator/simulator.rs sampling_ranges, enumerate_all, sim_random_walk_monte_carlo"),("weights reported","simulator.rs save_hand_weights, fix_hand_weights")],
  ["exact_equity, approx_equity"])
p("C21","Draws are read off the cards by fixed rules",
  "On a board of three or four cards, a hand below a flush shows a flush draw exactly when hole cards and board hold four of a suit, and on three board cards a backdoor flush draw when they hold three; the nut flag is shown when the hole cards then hold the highest ten-to-ace of that suit missing from the board, and for a made flush likewise. A hand below a straight shows open-ended, gutshot and double-gutshot straight draws, and on three board cards backdoor straight draws, exactly for the corresponding patterns of ranks with the ace high; a straight is flagged as the nuts exactly when it is the highest the board allows (ace high). The draws depend on nothing else, in particular not on which suit is which.",
  ["inputs"],"all 1326 hole cards with all 22100 flops and 230300 turns that leave them",
  "No test calls the draw function.",
  [HE],[("rank-pattern and suit-count tests","src/hand_evaluator/hand.rs get_draw")],
  ["get_draw","hand_results[..].draw"])
p("C22","Renaming suits or reordering players changes nothing else",
  "Applying one permutation of the four suits to all ranges, board and dead cards leaves every equity, and every hand's result up to that renaming, unchanged in an exact calculation. Reordering the players reorders their results in the same way and changes nothing else.",
  ["inputs","configurations"],"all inputs, all 24 renamings and all orders of up to nine players",
  "No test compares two calculations.",
  [SIM,CR,HE],[("suit shortcuts","src/equity_calculator/simulator.rs enumerate_board_rec"),("player numbering through combined ranges","combined_range.rs; simulator.rs enumerate_all")],
  ["exact_equity"])
p("C23","A range is a list of hands that compares, sorts and filters by cards alone",
  "Two hands are equal exactly when they are the same cards in the same places, and otherwise ordered by the rank of the first card, then of the second, then the suit of the first, then of the second; their weights never matter. Sorting a list of hands and removing repeats therefore keeps each hand once, with the weight of its first mention. Taking the cards of a board and dead cards out of play leaves exactly the hands without any of them, in the same order and with the same weights, however often and in however many steps it is done, and changes no copy of the range; doing so before a calculation with that board and those dead cards changes none of its results. A hand is written as its two cards, and reads back as that hand.",
  ["inputs","histories"],"all pairs of the 2652 ordered pairs of cards with any weights, all lists of hands, all sets of cards, and all sequences of filtering, sorting and removing repeats",
  "No test compares, sorts or filters hands; the tests of texts only count them.",
  [HR],[("comparison and equality","src/hand_range.rs impl Ord / PartialOrd / PartialEq for Combo"),("filtering","src/hand_range.rs remove_conflicting_combos"),("text","src/hand_range.rs impl Display for Combo")],
  ["Combo: cmp, ==, to_string","HandRange::remove_conflicting_combos","HandRange::hands"],
  [dict(name="HandRange::hands",meaning="the hands of the range with weights",where="src/hand_range.rs")])
p("C24","Calculations do not influence each other",
  "What a calculation gives is determined by the ranges, board and dead cards it is given and, if it is cut short, by its own token. Calculations made before it, in the same thread or another, calculations running at the same time, with tokens of their own or sharing one, and ranges read, copied, edited or filtered meanwhile make no difference: an exact calculation gives what it gives alone, a sampled one estimates that and stops at its own precision, an input is refused exactly when it is refused alone, and ranges and tokens are left as they were.",
  ["histories","schedules"],"all sequences and overlaps of reading, editing and filtering ranges, setting and reusing tokens, and calculations of both kinds on any number of threads",
  "Every test makes one calculation; none makes two that could differ, or two at the same time.",
  [SIM,CR,HR],[("state of one calculation","src/equity_calculator/simulator.rs Simulator::new, exact_equity, approx_equity"),("copies of the ranges","simulator.rs hand_ranges.to_owned()")],
  ["exact_equity","approx_equity","the ranges and token given to them"],
  [dict(name="Simulator",meaning="everything a calculation keeps while it runs",where="src/equity_calculator/simulator.rs")])
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(path,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
