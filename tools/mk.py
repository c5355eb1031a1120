#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from specs import SPECS

ENC = "src/codec/edo9300_ocgcore_encode.cpp"
DEC = "src/codec/edo9300_ocgcore_decode.cpp"
I = "include/ygopen/"
FRAME = I + "client/frame.hpp"
LIMBO = I + "client/frame_limbo.hpp"
ROOM = I + "server/room.hpp"
CTX = I + "server/basic_encode_context.hpp"

PROPS = []


def P(id, title, statement, over, text, why, files, mech, level_note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               **({"state": state} if state else {}),
                               "observe_at": observe or [], "hook_needed": None}, _note=level_note))


P("P01", "Every core message is consumed exactly and classified the same way",
  "Given one core message, the encoder reports whether it was translated, deliberately swallowed or is unknown, and this depends only on the "
  "message id (and, for the window hints, on nothing else). For translated and swallowed messages the number of bytes reported is exactly the length of that "
  "message, no byte outside of it is ever read, and a translated message always comes with an event or request.",
  ["inputs"], "all message ids and all well-formed contents: every list length, every number, every kind of place",
  "The suite has no test of the encoder at all; a misread length desynchronises the rest of the core's buffer only for the lists it concerns.",
  [ENC, I + "codec/encode_common.hpp", I + "codec/edo9300_ocgcore_encode.hpp"],
  [("message dispatch and readers", ENC + " encode_one"), ("result of one message", I + "codec/encode_common.hpp EncodeOneResult")],
  "bounded by list length only; numbers at full width", ["the result of encoding one message from a buffer that ends with the message"])
P("P02", "Event messages say exactly what the core's bytes say",
  "Every translated event of the core (confirmations, shuffles, turns, phases, life points, chains, swaps, summons, attacks, dice, coins, hints, duel start, "
  "tag swap, field reload, win) becomes the event that carries the same numbers and the same places, in the same order, and nothing else. "
  "Core places map to places by splitting overlay bit, spell-zone sequences (field and pendulum zones included) and positions the same way everywhere.",
  ["inputs"], "all event layouts, all numbers, all list lengths within the bound",
  "There are no encoder tests; a wrong field, sequence offset or order shows for particular ids, locations and lengths only.",
  [ENC, I + "proto/duel_msg.proto"], [("event translation", ENC + " encode_one"), ("place translation", ENC + " read_loc_info and the *_place helpers")],
  "compared field by field with an independent description of the core's layouts", ["the message produced for a buffer"])
P("P03", "Request messages offer exactly the choices the core offers",
  "Every request of the core (cards, tributes, sums, unselectable, chains, idle and battle commands, zones, positions, options, numbers, attributes, races, "
  "sorting, yes/no) becomes a request with the same addressee, limits, flags and candidates in the core's order, so that the n-th offered choice is the core's n-th choice. "
  "Zone requests list exactly the zones the core's mask leaves selectable.",
  ["inputs"], "all request layouts, all numbers and masks, all list lengths within the bound",
  "There are no encoder tests; answers are indexes, so a candidate lost, duplicated or reordered makes the user's choice mean another card.",
  [ENC, I + "proto/duel_msg.proto"], [("request translation", ENC + " encode_one")],
  "compared field by field with an independent description of the core's layouts", ["the message produced for a buffer"])
P("P04", "Card queries say exactly what the core's bytes say",
  "A query buffer of the core, with any of its sections present in the core's order or any other order, becomes exactly the attributes present in it, and unknown sections are skipped by their size. "
  "Refreshing one card or a whole location attaches each query to the place of its card, gaps included, materials are refreshed under their card, and exactly the buffer's bytes are consumed.",
  ["inputs"], "all sections, all values, all counts within the bound",
  "The suite only covers applying queries to cards, never reading them from the core.",
  [ENC, I + "client/queries.inl"], [("query reader", ENC + " encode_one_query"), ("location refresh", ENC + " UPDATE_CARD/UPDATE_DATA handling")],
  "compared field by field with an independent description of the core's layouts", ["the queries produced for a buffer"])
P("P05", "Card moves and materials follow the card they belong to",
  "A move of the core becomes an addition, a removal or a move from exactly the previous place to exactly the current place. "
  "Materials that come from or go to a card which is itself off the field are put where that card was, deferred until it arrives and attached in order, "
  "and a match-win reason announced before is reported with the win.",
  ["inputs", "histories"], "all pairs of places, reasons and positions, whatever the context remembers",
  "There are no encoder tests; Xyz materials need a card that left or is yet to arrive, over several messages.",
  [ENC, I + "codec/encode_common.hpp"], [("move translation", ENC + " MOVE"), ("what is remembered", I + "codec/encode_common.hpp IEncodeContext")],
  "context answers symbolic", ["the message and the calls on the context"])
P("P06", "Draws, deck reversal and grave/deck swap move exactly the right cards",
  "Drawing takes the top cards of the deck to the hand so that the first card drawn comes first, reversing the decks turns both upside down, and the top of the deck is revealed where it is. "
  "Swapping graveyard and deck leaves the old deck as graveyard, the old graveyard as deck and the extra-deck cards of the graveyard at the announced place of the extra deck, all in order and without losing a card.",
  ["inputs"], "all sizes within the bound and every subset of extra deck cards",
  "Not tested; one wrong splice start or count misplaces cards only for some sizes.",
  [ENC], [("pile translation", ENC + " DRAW, REVERSE_DECK, SWAP_GRAVE_DECK, DECK_TOP")],
  "the resulting splices are applied to a card-by-card model", ["the splices produced"])
P("P07", "Answers become exactly the response bytes the core expects",
  "Every answer is turned into the byte sequence the core expects for the request it answers: the same choice, count and order at the core's widths, "
  "with field and pendulum zones named the way the core numbers them. Whatever the output held before does not matter.",
  ["inputs"], "all kinds of answers, all values, all list lengths within the bound",
  "There are no decoder tests; the core silently retries or misapplies a malformed response.",
  [DEC, I + "codec/edo9300_ocgcore_decode.hpp"], [("answer translation", DEC + " decode_one_answer")],
  "byte by byte against an independent description", ["the bytes written"])
P("P08", "Bit utilities count and choose exactly the set bits",
  "The population count of any unsigned value is its number of set bits. Choosing the n lowest (or highest) set bits yields exactly those, none for n = 0 and all of them if there are fewer.",
  ["inputs"], "all values of all four widths, counts from 0 to beyond the width",
  "Tests sample a few dozen constants.",
  [I + "bit.hpp"], [("popcnt, choosel, chooser", I + "bit.hpp")], "all values; counts 4..width-1 of 32 and 64 bits are out of reach of the solver")
P("P09", "Every operation on the field moves exactly the cards it names",
  "Adding, removing, moving, swapping and shuffling cards and resizing, splicing and exchanging piles leave every card exactly where that operation says, keep all other cards and their order, and lookups agree with it. "
  "No card is lost, duplicated or leaked, and exactly the removed ones are destroyed.",
  ["inputs", "configurations"], "all legal places (controller, location, sequence, material position) on populated fields",
  "Tests use a handful of places and mostly one-card piles.",
  [FRAME], [("operations", FRAME + " BasicFrame")], "one operation from populated fields, symbolic places", ["the field through its lookups"])
P("P10", "Misusing the field is refused, never silently absorbed",
  "An operation that names a place which does not exist or cannot hold the result (no or several controllers, no or several locations, sequence beyond the pile or zones, an occupied zone, an absent card or material, a slice beyond the pile, a shuffle of more cards than there are zones) fails an assertion. "
  "It never completes, and never touches memory outside of the field's containers.",
  ["inputs"], "all values of controller, location, sequence and material position that are not legal for the operation",
  "The death tests cover some lookups with fixed values; most are marked TODO.",
  [FRAME], [("assertions", FRAME + " BasicFrame"), ("unreachable marker", I + "detail/config.hpp")], "one operation from populated fields, symbolic places", ["whether the call returns"])
P("P11", "A field with history can go back, forward and on along another line",
  "Undoing operations of a field with history brings back every earlier state, redoing brings back the later ones with the very same cards. "
  "After forgetting what came after the current point, new operations take its place and can be undone and redone likewise; forgetting at the end changes nothing, and all cards ever made are released with the field.",
  ["histories"], "all sequences of operations within the bound, all places",
  "The source itself notes that undo operations have no tests.",
  [LIMBO], [("operation log", LIMBO + " LimboFrame"), ("forgetting", LIMBO + " erase_history")], "histories of bounded length", ["the field after each step"],
  [{"name": "operation log", "meaning": "what each operation removed or added", "where": LIMBO + " operations_"}])
P("P12", "A value with history goes back and forth through its values",
  "A value with history reads as the last one set; undoing goes back one value at a time and setting it again while in the past goes forward through the recorded values. "
  "Undoing past the first value is refused.",
  ["histories"], "all sequences of steps within the bound, all values",
  "Tests use two constants and two steps.",
  [I + "client/undoable.hpp"], [("value list", I + "client/undoable.hpp BasicUndoable")], "histories of bounded length", ["the value after each step"])
P("P13", "A board follows the events it is given",
  "After any sequence of events a board's field, life points, turn, turn player, phase, chain and blocked zones are what these events say, in every event's order of operations, and events that do not concern the board change nothing. "
  "Damage and costs never take life points below zero.",
  ["histories", "inputs"], "all kinds of events, in any order, with any legal places and values within the bound",
  "Tests give single events with fixed values.",
  [I + "client/parse_event.hpp", I + "client/board.hpp", FRAME], [("event application", I + "client/parse_event.hpp parse_event")],
  "histories of bounded length (card shuffles are decided under P09)", ["the board after each event"])
P("P14", "Undoing events brings back every earlier board, redoing every later one",
  "On a board with history, undoing the last events one by one brings back exactly the board before each of them, and applying them again brings back exactly the board after each of them with the same cards. "
  "This may be repeated at will.",
  ["histories", "inputs"], "all sequences of events within the bound (shuffles excepted, whose undo the library leaves open), any number of steps back",
  "The source notes that undo operations have no tests.",
  [I + "client/undo_parse_event.hpp", I + "client/parse_event.hpp", LIMBO, I + "client/undoable.hpp"],
  [("event reversal", I + "client/undo_parse_event.hpp undo_parse_event"), ("operation log", LIMBO + " LimboFrame")],
  "histories of bounded length; the board's chain stack is the harness's own (the library has none with history)", ["the board after each step back or forth"])
P("P15", "A query changes exactly the attributes it carries",
  "Applying a query to a card sets exactly the attributes the query carries to its values and leaves all other attributes and all other cards alone. "
  "With caching, exactly the attributes that already had the value are reported as hits and left untouched, so undoing all others restores the card.",
  ["inputs"], "all attributes, present or not, all values",
  "Tests set one attribute to fixed values at a time; relations and counters are marked TODO.",
  [I + "client/parse_query.hpp", I + "client/queries.inl", I + "client/card.hpp"], [("query application", I + "client/parse_query.hpp parse_query")],
  "pairs of attributes over none and over all", ["the card and the reported hits"])
P("P16", "Places are totally ordered and locations are classified consistently",
  "Places compare first by controller, then location, sequence and material position; two are equal exactly if all four are, and exactly one of less, equal and greater holds. "
  "Every location value is classified as none, pile or zone by its bits, and zones have exactly the game's number of places.",
  ["inputs"], "all values", "Tests compare a few places that differ by one.",
  [I + "proto/duel/data.hpp", I + "duel/constants/location.hpp", FRAME], [("order", I + "proto/duel/data.hpp PlaceLess"), ("kinds", I + "duel/constants/location.hpp")],
  "no bound")
P("P17", "The encoder's context answers with the state the messages produced",
  "The context reports the size of each pile and the presence of materials as of the messages it was given, the last match-win reason (none at first), and for any place the last card registered as having left it (an empty place if none). "
  "Deferred materials are handed out once, in order.",
  ["histories", "inputs"], "all interleavings of registrations and lookups within the bound, all places",
  "Tests register one or two fixed places.",
  [CTX], [("context", CTX + " BasicEncodeContext")], "histories of bounded length")
P("P18", "Players are seated fairly, within the room's limits, and everyone is told",
  "A room's limits always are two numbers between one and the maximum, and an unknown way of deciding the first turn becomes the default. Whoever enters gets the first free seat of the team with fewer players (the first team if equal), or watches if both are full. "
  "The newcomer is sent the options, who sits where and how many watch; then everyone, newcomer included, is told exactly who came or how many watch now.",
  ["inputs", "histories"], "all options, any number of visitors within the bound",
  "Tests use default options and a handful of visitors.",
  [ROOM, I + "proto/room.proto"], [("option clamping", ROOM + " clamp_options_"), ("seating", ROOM + " on_client_enter_")],
  "bounded number of visitors", ["the events each client is sent"])
P("P19", "Only seated players with an accepted deck can be ready",
  "A deck's verdict is told to its sender alone and only seated players may submit one; becoming ready takes an accepted deck. "
  "Everyone is told of every change of a player's readiness and of nothing else, and nothing else changes it.",
  ["histories", "inputs"], "all sequences of signals within the bound from all clients, any verdicts",
  "Tests cover single fixed sequences with two or three clients.",
  [ROOM], [("signals while configuring", ROOM + " on_client_signal_")], "histories of bounded length", ["the events each client is sent"])
P("P20", "Duels start by the host with all ready; the first turn is decided fairly",
  "The duel starts only when the host asks while both teams have players who all are ready with accepted decks; then everyone is told. Dice, each showing one more than a random number's remainder by six, are rolled until they differ and the higher wins; a coin gives heads to the first team on an even number; everyone is told the result and the winning team's first player decides. "
  "If the host decides, only the host's choice of an existing team counts; any other signal in any state has no effect.",
  ["histories", "inputs"], "all sequences of signals within the bound, all random numbers",
  "Tests use fixed random numbers and few refusals.",
  [ROOM], [("state entry", ROOM + " on_enter_state_"), ("signals", ROOM + " on_client_signal_")], "histories of bounded length; at most two ties of the dice", ["the events each client is sent"])
P("P21", "A board that follows the encoded messages matches the core's duel",
  "If every message of the core is encoded with the standard context, and the context is given each resulting message, the field it keeps is exactly the core's field after each message: every pile, every zone and every list of materials. A board given the same messages has that field too, and the core's life points, turn, phase, chain and blocked zones. "
  "This includes summoning with materials, detaching, and materials that leave after their card did.",
  ["histories"], "all short sequences of draws, moves, Xyz summons, attachments and departures",
  "No test runs encoder, context and board together.",
  [ENC, CTX, I + "client/parse_event.hpp", FRAME], [("encode, then parse", CTX + " parse"), ("move translation", ENC + " MOVE")],
  "histories of bounded length against a small model of the core", ["the field of a board given the same messages"])

P("P22", "A board with history rewinds a duel to any earlier moment",
  "A board with history (limbo frame, undoable values) follows the messages of a duel as any other. Undone event by event, its field, life points, turn, phase and blocked zones are the core's of that moment every time; redone, they are the later ones again. "
  "It holds for any number of steps back and forth, and every card is destroyed with the board, those in limbo included.",
  ["histories"], "all short sequences of draws, moves, Xyz summons, attachments and departures, rewound",
  "Tests undo single events, on boards put together by hand.",
  [I + "client/undo_parse_event.hpp", I + "client/parse_event.hpp", LIMBO, FRAME, ENC], [("undo", I + "client/undo_parse_event.hpp"), ("limbo", LIMBO), ("history of values", I + "client/undoable.hpp")],
  "histories of bounded length against a small model of the core", ["the field of a board going back and forth"])
P("P23", "What the core told about a card stays with that card",
  "When the core refreshes a card, its materials or a whole location, exactly those cards know what was told (code, position, attack), each its own. "
  "What each card knows goes with it through every later move, exchange, attachment and departure, and no other card learns or forgets anything.",
  ["histories", "inputs"], "all short histories of refreshes and actions, all values",
  "No test joins encoded queries, a board and cards.",
  [I + "client/parse_query.hpp", I + "client/card.hpp", ENC, FRAME], [("applying queries", I + "client/parse_query.hpp"), ("cards", I + "client/card.hpp"), ("encoding queries", ENC + " query::")],
  "histories of bounded length against a small model of the core", ["what every card on the board knows"])

P("P24", "A choice made from a request is the choice the core reads",
  "Whatever the core asks (a command, cards, a chain link, zones, options, numbers, positions, attributes, races, yes or no), the request offers the asked player exactly what the core allows, and no more. "
  "If a client picks any of it, the bytes of the decoded answer make the core take that very candidate: same card, same effect, same zone, same action. A refusal is read as a refusal.",
  ["inputs"], "all questions within the bound, all candidates, all picks",
  "Encoder and decoder have no tests, least of all together.",
  [ENC, DEC, I + "proto/duel_answer.proto", I + "proto/duel_msg.proto"], [("requests", ENC + " SELECT_*"), ("answers", DEC + " decode_one_answer")],
  "questions of bounded length; the reader of responses is written from the core's rules", ["the core's reading of the response to what was offered"])

P("P90", "Messages survive serialisation",
  "Serialising any message and parsing the bytes again yields an equal message.",
  ["inputs"], "all messages", "The suite never serialises a message.",
  [I + "proto/duel_msg.proto", I + "proto/room.proto", I + "proto/duel_answer.proto"], [("protobuf", I + "proto/meson.build")], "")

NOT_APPLICABLE = [
    {"property": "P90", "reason": "Serialisation is libprotobuf's code, of which only the binary library is installed: there is no source or IR to "
     "encode, and the project's own part is only its message definitions."},
]

NA = {x["property"] for x in NOT_APPLICABLE}
have = [p for p in PROPS if p["id"] in SPECS]
with open(V + "/properties.jsonl", "w") as f:
    for p in have + [p for p in PROPS if p["id"] in NA]:
        p = {k: v for k, v in p.items() if k != "_note"}
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 lib/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 lib/check.py %s thorough" % p["id"],
        "technique": "symbolic execution of the LLVM IR of the real code, assertions decided by Z3; counterexamples replayed natively under ASan/UBSan",
        "level": "model_checking",
        "level_note": p["_note"],
    } for p in have],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: the checks compile its sources as they are.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(have), "properties;", [p["id"] for p in PROPS if p["id"] not in SPECS], "without a check;", [s for s in SPECS if s not in {p["id"] for p in PROPS}])
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
