"""What each property's check runs, and the bounds it claims."""

COMMON_ASSUME = [
    "The encoding is LLVM 18 bitcode of the working tree, built by clang -O1 with assertions and UBSan traps on.",
    "Stand-ins replace libprotobuf-lite's and libstdc++'s out-of-line code (rt/rt_pb.cpp, rt/rt_std.cpp); allocation never fails.",
    "Single-threaded execution.",
]


def R(entry, **kw):
    d = {"entry": entry}
    d.update(kw)
    return d



EVENTS = ["enc_confirm", "enc_shuffle", "enc_turn", "enc_update_places", "enc_swap", "enc_field_disabled",
          "enc_chain", "enc_select_events", "enc_attack", "enc_results", "enc_start", "enc_tag_swap",
          "enc_reload", "enc_win"]
REQUESTS = ["enc_req_simple", "enc_req_card", "enc_req_idle", "enc_req_chain", "enc_req_zone"]
QUERIES = ["enc_query", "enc_update_card", "enc_update_data", "enc_update_spots"]
CLASSES = ["enc_swallowed", "enc_unknown", "enc_ai_name"]


LISTS = ["enc_confirm", "enc_shuffle", "enc_select_events", "enc_results", "enc_tag_swap", "enc_reload", "enc_req_simple",
         "enc_req_card", "enc_req_idle", "enc_req_chain", "enc_query", "enc_update_card", "enc_update_data"]


def enc(names, what, n):
    reach = ["framed" if what == 1 else "compared"]
    return ([R(e, params={"what": what, "n": n}, reach=reach) for e in names] +
            [R(e, params={"what": what, "big": 1}, reach=reach, cost=5) for e in names if e in LISTS])


def frame_runs(t):
    out = []
    for pr in (100, 200) if t == "quick" else (100, 101, 102, 103, 104, 200, 201, 202, 203, 204):
        for e in ("lookup", "has_card", "add", "remove", "pile_resize", "pile_splice", "pile_swap", "clear"):
            out.append(R("frame_" + e, params={"profile": pr}))
        for e in ("move", "swap"):
            for c in (0, 1):
                out.append(R("frame_" + e, params={"profile": pr, "con": c}, cost=10))
        out.append(R("frame_shuffle", params={"profile": pr, "n": 2}))
        out.append(R("frame_permute", params={"profile": pr, "n": 5}, reach=["shuffled"], cost=5))
    for pr in range(2 if t == "quick" else 6):
        for e in ("lookup", "has_card", "add", "remove", "pile_resize", "pile_splice", "pile_swap", "clear"):
            out.append(R("frame_" + e, params={"profile": pr}))
        for n in range(1, 5 if t == "quick" else 6):
            out.append(R("frame_shuffle", params={"profile": pr, "n": n}, cost=n))
        for e in ("move", "swap"):
            for c in (0, 1):
                out.append(R("frame_" + e, params={"profile": pr, "con": c}, cost=10))
        for n in (5, 6) if t == "quick" else (5, 6, 7):
            if pr == 0 or n < 7:
                out.append(R("frame_permute", params={"profile": pr, "n": n}, reach=["shuffled"], cost=n))
        out.append(R("frame_splices", params={"profile": pr, "piles": pr + 1, "steps": 2}, reach=["spliced"], cost=5))
        if t != "quick":
            out.append(R("frame_splices", params={"profile": pr, "piles": pr + 4, "steps": 2}, reach=["spliced"], cost=9))
    return out


def misuse_runs(t):
    out = [R("misuse_lp", reach=["answered"]), R("misuse_shuffle_many", reach=["shuffled"])]
    for pr in [0, 100] if t == "quick" else [0, 1, 2, 3, 100, 101, 102, 103, 104]:
        base = {"profile": pr, "top": 3 if t != "quick" else 2}
        for e in ("lookup", "add", "remove", "resize"):
            out.append(R("misuse_" + e, params=base))
        for e in ("move", "swap", "splice", "pile_swap") + (("shuffle",) if pr < 100 else ()):
            for side in (0, 1):
                out.append(R("misuse_" + e, params=dict(base, side=side), cost=10))
    return out


def limbo_runs(t):
    out = []
    for w in range(5):
        out.append(R("limbo_branch", params={"world": w, "first": 1, "second": 1}, reach=["branched"]))
        out.append(R("limbo_branch", params={"world": w, "before": 300 if t == "quick" else 600, "first": 0, "second": 1, "script": 300 + w, "cut": 280}, reach=["branched"], cost=9))
        for n0, first, second in [(10, 0, 1)] if t == "quick" else [(18, 1, 1), (30, 0, 1)]:
            out.append(R("limbo_branch", params={"world": w, "before": n0, "first": first, "second": second, "script": w + n0, "cut": 1 + w}, reach=["branched"], cost=5))
        # from the very beginning
        out.append(R("limbo_branch", params={"world": w, "empty": 1, "first": 2, "second": 1 if t == "quick" or w > 1 else 2}, reach=["branched"], cost=5))
        if t == "quick":
            out.append(R("limbo_branch", params={"world": w, "first": 2, "second": 1, "kinds": 4}, reach=["branched"], cost=5))
        else:
            out.append(R("limbo_branch", params={"world": w, "first": 2, "second": 1}, reach=["branched"], cost=5))
            out.append(R("limbo_branch", params={"world": w, "first": 2, "second": 2, "kinds": 4}, reach=["branched"], cost=9))
    return out


CODEC_ASSUME = [
    "Core messages are well formed: controller 0 or 1, one location bit (or none), spell sequences up to 7, material positions "
    "below 2^31, effect codes in 32 bits and indices in 20, query sections at least 4 bytes; message ids the library marks TODO "
    "(22, 23, 142, 144) are outside.",
]


def enc_bounds(t):
    return ("every supported message layout with lists of 0..%d entries (and where the layout has lists, one of 7, 40, 131 or - where the count is no byte - 259 entries); every number symbolic at the width the core writes; places "
            "on the field, overlaid and nowhere" % (3 if t == "quick" else 6))


def pile_runs(t):
    out = [R(e, params={"what": 2, "n": 4}) for e in ("enc_deck_top", "enc_draw", "enc_reverse_deck")]
    out.append(R("enc_draw", params={"what": 2, "big": 1}))
    for gy in (16, 35) if t == "quick" else (16, 17, 35, 64):
        out.append(R("enc_swap_grave_deck", params={"what": 2, "gy": gy, "gylo": gy, "big": 1}))
    out.append(R("enc_swap_grave_deck", params={"what": 2}))
    out.append(R("enc_swap_grave_deck", params={"what": 2, "gy": 9, "gylo": 9}))
    if t != "quick":
        out.append(R("enc_swap_grave_deck", params={"what": 2, "gy": 5, "gylo": 4}))
    return out


def event_runs(t, e):
    out = []
    # every kind alone, with up to two operations
    for k in range(16):
        for ops in (1, 2):
            out.append(R(e, params={"events": 1, "ops": ops, "k0": k, "world": k % 5}, cost=ops))
    # every pair of kinds, each on one pile or zone
    def pair(k0, k1, world, narrow):
        p = {"events": 2, "ops": 1, "k0": k0, "world": world, "cards": 1}
        if k1 is not None:
            p["k1"] = k1
        if narrow:
            p["narrow"] = 1
        out.append(R(e, params=p, cost=9 if k1 is None else {7: 20, 8: 12, 4: 12}.get(k1, 3)))

    # any one event within a long history
    for k in range(16):
        for free in (2, 11) if t == "quick" else (0, 5, 13, 19):
            n = 14 if t == "quick" else 20
            out.append(R("ev_long", params={"events": n, "free": free, "kind": k, "script": k + 16 * free, "world": (k + free) % 5,
                                            "undo": int(e == "ev_undo"), "back": k % 3, "ahead": k % 4},
                         reach=["followed"] + (["undone"] if e == "ev_undo" else []), cost=8))
    # large boards, and events of many operations
    for k in range(16):
        for w in (k % 5,) if t == "quick" else range(5):
            reach = ["followed"] + (["undone"] if e == "ev_undo" else [])
            base = {"kind": k, "undo": int(e == "ev_undo"), "world": w}
            out.append(R("ev_large", params=dict(base, cards=300, **({"narrow": 1} if k == 7 and t == "quick" else {})), reach=reach, cost=9))
            n = 300 if t == "quick" else 600
            if k in (0, 2, 6, 9, 10, 12):
                out.append(R("ev_long", params=dict(base, events=n, free=n - 10, script=700 + k, back=2, ahead=270), reach=reach, cost=20))
            if k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12):
                out.append(R("ev_large", params=dict(base, cards=280 if k in (1, 7) else 8, ops=270, script=500 + k), reach=reach, cost=5))
    for k in range(16):
        for w in [(k + 2) % 5] if t == "quick" else range(5):
            if k in (2, 4, 7, 8):
                for k1 in range(16):
                    pair(k, k1, w, t == "quick" or (k in (7, 8) and k1 in (7, 8)))
            else:
                pair(k, None, w, True)
    if t != "quick":
        # every triple of kinds among those that work on the history of the field or replace it
        for k0 in (0, 1, 6, 7, 8):
            for k1 in (0, 1, 6, 8):
                for k2 in (0, 1, 2, 6, 8):
                    out.append(R(e, params={"events": 3, "ops": 1, "k0": k0, "k1": k1, "k2": k2, "world": (k0 + k1 + k2) % 5,
                                            "cards": 1, "narrow": 1}, cost=8))
    return out


def event_bounds(t):
    return ("one event of every kind with 1 and 2 operations each on a board with 2 cards per spot (two piles, a zone, "
            "an empty zone, rotating over all locations and both players); one of every kind on a board with 300 cards per spot, and with 270 operations of which the last is free; "
            "events of six kinds within %d fixed ones; every ordered pair of event kinds with one "
            "operation each on 1 card per spot, compound events on one pile and one zone; one event of every kind within fixed histories of %d, at the ends and the middle of what has grown; pile sizes after a resize 0..3; all numeric values symbolic at full width"
            % (300 if t == "quick" else 600, 14 if t == "quick" else 20) + ("" if t == "quick" else "; pairs repeated from all 5 worlds, then also with unrestricted compound events unless both are; triples of "
               "the kinds that work on the history of the field or replace it"))


def context_runs(t):
    out = [R("ctx_left", params={"steps": 1, "zero": 1}, reach=["asked"]),
           R("ctx_left_many", params={"many": 60 if t == "quick" else 120}, reach=["asked"]),
           R("ctx_deferred", params={"exact": 1, "many": 90}, reach=["taken"]), R("ctx_left_many", params={"many": 270}, reach=["asked"], cost=20),
           R("ctx_deferred", params={"exact": 1, "many": 300}, reach=["taken"]),
           R("ctx_deferred", params={"many": 4 if t == "quick" else 7}, reach=["taken"])]
    for m in (3, 5, 6, 9, 10, 12):
        out.append(R("ctx_left", params={"steps": 2 if t == "quick" else 3, "fields": m}, reach=["asked"]))
    for m in (4, 8) if t == "quick" else (3, 5, 6, 9, 10, 12):
        out.append(R("ctx_memory", params={"steps": 3, "fields": m}, reach=["asked"]))
    if t != "quick":
        for m in (1, 2, 4, 8):
            out.append(R("ctx_memory", params={"steps": 4, "fields": m}, reach=["asked"], cost=9))
    for w in range(5):
        for s, c in ([(1, 2), (2, 1)] if t == "quick" else [(1, 3), (2, 2)]):
            out.append(R("ctx_board", params={"world": w, "steps": s, "cards": c}, reach=["followed"], cost=s))
    for w in range(10):
        for k in range(6):
            n = 30 if t == "quick" else 120
            out.append(R("ctx_board_long", params={"world": w, "kind": k, "steps": n, "free": (7 * k + w) % (n - 4), "script": 10 * k + w},
                         may_be_empty=True, cost=3))
    return out


def room_runs(t, e):
    """Rooms: seats of both teams, players, watchers; see room_bounds."""
    out = []

    def run(a, b, n, w, steps, cost=1, **kw):
        can_start = n > 1
        reach = ["signalled"] + (["started"] if e == "room_start" and can_start else [])
        out.append(R(e, params=dict(kw, a=a, b=b, players=n, watchers=w, steps=steps), reach=reach, cost=cost))
    deep = t != "quick"
    if e == "room_ready":
        run(1, 1, 2, 1, 3 if deep else 2, cost=9)
        run(1, 1, 2, 0, 2, bare=1, banlist=0)
        run(2, 1, 3, 1, 2 if deep else 1, cost=5)
        run(2, 2, 1, 0, 4 if deep else 3)
        run(2, 2, 3, 0, 2 if deep else 1, cost=5)
        run(3, 3, 6, 2, 2 if deep else 1, any=2, cost=5)
        run(3, 1, 4, 1, 2 if deep else 1, any=2, cost=5)
    else:
        for m in (0, 1, 3):
            run(1, 1, 2, 1, 3 if deep else 2, method=m, cost=9)
            run(2, 1, 3, 1, 2 if deep else 1, method=m)
            run(3, 3, 6, 2, 1, method=m, cost=3)
            run(1, 3, 3, 0, 2 if deep else 1, method=m)
        run(1, 1, 2, 1, 2 if deep else 1, method=2, ties=1, cost=9)
        run(1, 1, 2, 1, 0, method=2, ties=15 if deep else 9)
        run(2, 1, 3, 1, 1, method=2, ties=1, cost=3)
        run(3, 3, 6, 2, 1, method=2, ties=0, cost=9)
        run(1, 3, 3, 0, 1, method=2, ties=0)
        run(2, 2, 1, 0, 2)
    return out


KINDS = 13  # of the core's actions in harness/pipeline.cpp


def pipeline_runs(t):
    cons = (0, 1) if t != "quick" else (None,)
    out = []

    def run(*ks, cost=1):
        for c in cons:
            p = {"steps": len(ks), "con": sum(ks) & 1 if c is None else c}
            p.update(("k%d" % i, k) for i, k in enumerate(ks))
            # an Xyz monster gone with its materials: nothing is left to detach, to leave or to exchange with it
            if ks in ((5, 3), (5, 5), (5, 6)):
                continue
            out.append(R("pipeline", params=p, reach=["followed"] if len(ks) < 3 else [], may_be_empty=len(ks) > 2, cost=cost))
    for k0 in range(KINDS):
        run(k0)
        for k1 in range(KINDS):
            run(k0, k1, cost=9 if k0 in (1, 4) and k1 in (1, 4, 5) else 2)
    for k in range(KINDS):
        for script in range(2):
            for free in ((2, 14) if t == "quick" else (2, 20, 40)):
                n = 20 if t == "quick" else 60
                out.append(R("pipeline_long", params={"steps": n, "kind": k, "free": free, "script": 13 * script + k, "con": (k + script) & 1, "deck": 20, "extra": 8, "mats": 2},
                             may_be_empty=True, cost=20))
    # histories of hundreds, decks of hundreds
    for k in range(KINDS):
        for script in range(2 if t == "quick" else 6):
            out.append(R("pipeline_long", params={"steps": 300, "kind": k, "free": 280 + 3 * script, "script": 400 + k + 20 * script, "con": k & 1, "deck": 40, "extra": 8, "mats": 2},
                         may_be_empty=True, cost=20))
            if k != 8 and (script == 0 or t != "quick"):  # swapping decks of hundreds: P06
                out.append(R("pipeline_long", params={"steps": 40, "kind": k, "free": 30 + script, "script": 600 + k + 20 * script, "con": (k + script) & 1, "deck": 280, "extra": 8, "mats": 2},
                             may_be_empty=True, cost=20))
    if t != "quick":
        cons = (None,)
        for k0 in range(KINDS):
            for k1 in range(KINDS):
                for k2 in range(KINDS):
                    ks = (k0, k1, k2)
                    if sum(k in (1, 4) for k in ks) < 2 and sum(k in (1, 3, 4, 5) for k in ks) < 3:
                        run(k0, k1, k2, cost=5)
    return out


def rewind_runs(t):
    out = []
    for k0 in range(KINDS):
        out.append(R("pipeline_undo", params={"steps": 1, "con": k0 & 1, "k0": k0}, reach=["rewound"]))
        for k1 in range(KINDS):
            if (k0, k1) not in ((5, 3), (5, 5), (5, 6)) and (t != "quick" or not (k0 in (1, 4) and k1 in (1, 4, 5))):
                out.append(R("pipeline_undo", params={"steps": 2, "con": (k0 + k1) & 1, "k0": k0, "k1": k1}, reach=["rewound"], cost=9))
        for script in range(1 if t == "quick" else 4):
            for free in (2, 10) if t == "quick" else (2, 10, 20):
                out.append(R("pipeline_undo", params={"long": 1, "steps": 12 if t == "quick" else 30, "kind": k0, "free": free, "script": 100 + 13 * script + k0,
                                                      "con": (k0 + script) & 1, "deck": 20, "extra": 8, "mats": 2}, may_be_empty=True, cost=20))
            out.append(R("pipeline_undo", params={"long": 1, "steps": 300, "kind": k0, "free": 285, "script": 800 + 13 * script + k0,
                                                  "con": (k0 + script) & 1, "deck": 40, "extra": 8, "mats": 2}, may_be_empty=True, cost=20))
    return out


def know_runs(t):
    out = []
    for k0 in range(KINDS):
        for at in (0, 1):
            out.append(R("pipeline_know", params={"steps": 1, "con": k0 & 1, "k0": k0, "refresh": at, "what": 7}, reach=["known"], cost=5))
        for script in range(1 if t == "quick" else 4):
            both = ((1, 7), (6, 3)) if t == "quick" else ((1, 7), (6, 3), (2, 18), (15, 9))
            if k0 in (1, 4):  # too many to join with any refresh
                both = ((2, 99),) if t == "quick" else ((2, 99), (10, 99), (99, 7))
            for free, at in both:
                out.append(R("pipeline_know", params={"long": 1, "steps": 10 if t == "quick" else 24, "kind": k0, "free": free, "script": 200 + 13 * script + k0, "refresh": at,
                                                      "con": (k0 + script) & 1, "deck": 6, "extra": 4, "mats": 2}, may_be_empty=True, cost=20))
            if k0 not in (1, 2, 4, 5):
                out.append(R("pipeline_know", params={"long": 1, "steps": 300, "kind": k0, "free": 290, "script": 900 + 13 * script + k0, "refresh": 280,
                                                      "con": (k0 + script) & 1, "deck": 40, "extra": 4, "mats": 2}, may_be_empty=True, cost=20))
    return out


def choice_runs(t):
    names = ["choice_idle", "choice_cards", "choice_chain", "choice_zone", "choice_declare"]
    return ([R(e, params={"n": 3 if t == "quick" else 6}, reach=["answered"]) for e in names] +
            [R(e, params={"big": 1}, reach=["answered"], cost=5) for e in names if e != "choice_zone"])


PIPELINE_BOUNDS = ("%s of thirteen kinds of actions of the core (draws, moves, attaching, detaching, Xyz summons with 1 or 2 materials and "
                   "everything attached to those, an Xyz monster leaving, exchanging cards, reversed decks, graveyard and deck swapped, tag "
                   "swap, tokens, the field reloaded, anything about LP, turn, phase, chain links or blocked zones), each at any of eight spots of both players, after a start that leaves 3 or more cards in the decks, 2 "
                   "in the extra decks, one in hand and graveyard, a monster and one with 2 materials; each such action within %d fixed others from decks of 20, within 299 from decks of 40 and (but swapping decks and graveyards) within 39 from decks of 280; codes, positions, reasons symbolic "
                   "at full width")


SPECS = {
    "P01": dict(harness=["encode"], runs=lambda t: enc(EVENTS + REQUESTS + QUERIES + CLASSES, 1, 3 if t == "quick" else 6),
                bounds=lambda t: "every message id 0..255; lists of 0..%d (and 7, 40, 131, 259) entries, numbers and entry kinds symbolic at full width; "
                "buffers exactly as long as the message" % (3 if t == "quick" else 6),
                assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P02": dict(harness=["encode"], runs=lambda t: enc(EVENTS, 2, 3 if t == "quick" else 6),
                bounds=enc_bounds, assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P03": dict(harness=["encode"], runs=lambda t: enc(REQUESTS, 2, 3 if t == "quick" else 6),
                bounds=enc_bounds, assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P04": dict(harness=["encode"], runs=lambda t: enc(QUERIES, 2, 3 if t == "quick" else 6),
                bounds=enc_bounds, assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P05": dict(harness=["move"], runs=lambda t: [R("enc_move", params={"what": 2, "n": 2}), R("enc_move", params={"what": 2, "big": 1}), R("enc_match_kill")],
                bounds="any pair of core places (both controllers, all ten locations, on-field, overlaid or nowhere), any reason and "
                "position; context answers symbolic; up to 2 (and exactly 7, 40, 131 or 259) deferred materials",
                assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P06": dict(harness=["move"], runs=pile_runs,
                bounds="draws of 0..3 (and 7, 40, 131, 259) cards; decks of 0..4 cards for reversals; graveyards of 0..3 (thorough 0..5), 9, 16 and 35 (thorough 17, 64) cards and decks of 0..3 for "
                "the swap, every subset of extra deck cards; all codes symbolic",
                assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P07": dict(harness=["decode"], runs=lambda t: [R(e, params={"n": 3 if t == "quick" else 5}) for e in
                                                   ["dec_numbers", "dec_refusals", "dec_cards", "dec_idle", "dec_zones", "dec_sort"]] +
                [R(e, params={"big": 1}) for e in ["dec_cards", "dec_zones", "dec_sort"]],
                bounds=lambda t: "answers with 0..%d (cards, zones, orders also 7, 40, 131, 259; orders no 259) entries, all values symbolic at full width" % (3 if t == "quick" else 5),
                assumptions=COMMON_ASSUME),
    "P08": dict(harness=["bit"], runs=lambda t: [R("bit_popcnt")] + [R("bit_choose%d" % w, cost=w) for w in (8, 16, 32, 64)] +
                [R("bit_choose%d" % w, params={"free": 4 if t == "quick" else 6}, cost=100) for w in (16, 32, 64)],
                bounds=lambda t: "population count: all values of all four unsigned widths; choosing: all 8 and 16 bit values with counts 0..width+2, all 32 and "
                "64 bit values with counts 0..3, width and width+1, and with all counts those whose bits outside of %d neighbours are all equal" %
                (4 if t == "quick" else 6), assumptions=COMMON_ASSUME),
    "P09": dict(harness=["frame"], runs=lambda t: frame_runs(t),
                bounds=lambda t: "one operation with symbolic places on each of %d field populations in which piles and zones hold 0..2 "
                "cards and materials (over the populations every size in every container); resize counts 0..4, splices of any "
                "slice, shuffles of 1..%d places out of any and of all permutations of the first %d; two splices in a row among three piles; one operation at the ends and the middle of "
                "containers of 40, 20 and 10 cards and materials, and of a pile of 300 and 270 materials" % ((2, 4, 6) if t == "quick" else (6, 5, 7)),
                assumptions=COMMON_ASSUME),
    "P10": dict(harness=["misuse"], runs=lambda t: misuse_runs(t),
                bounds="one operation with symbolic places on populated fields, with small containers and with up to 40 cards in some; every value of controller, location, sequence and "
                "material position; shuffles of one or two zones with one such place, and of 1 to 32", assumptions=COMMON_ASSUME),
    "P11": dict(harness=["limbo"], runs=limbo_runs,
                bounds=lambda t: "%d operations (add, remove, resize, clear, move) at any place of a pile and a zone, back by any number, maybe one "
                "forward, history cut, %d more, all the way back, forward and back; 5 choices of pile and zone covering all ten locations; the same on an empty field, history and all; the same with %s fixed operations before; one operation after %d, back by up to 280 and more"
                % ((2, 1, "10", 300) if t == "quick" else (2, 2, "18 or 30", 600)),
                assumptions=COMMON_ASSUME),
    "P12": dict(harness=["small"], runs=lambda t: [R("undoable_value", params={"steps": 8 if t == "quick" else 12}, reach=["walked"]),
                                                   R("undoable_list", params={"steps": 5 if t == "quick" else 7}, reach=["walked"]),
                                                   R("undoable_value", params={"before": 40, "steps": 6}, reach=["walked"]),
                                                   R("undoable_value", params={"before": 300, "steps": 4}, reach=["walked"]),
                                                   R("undoable_list", params={"before": 20, "steps": 5}, reach=["walked"])],
                bounds=lambda t: "histories of %d steps over a number (all 32-bit values) and %d over a list of up to 2 numbers; then all the way "
                "forward and back; 6, 4 and 5 steps after 40, 300 and 20 fixed ones; lists of up to 300 numbers" % ((8, 5) if t == "quick" else (12, 7)),
                assumptions=COMMON_ASSUME),
    "P16": dict(harness=["small"], runs=lambda t: [R("place_order"), R("place_transitive"), R("location_kinds"), R("zone_limits", reach=["limited"])],
                bounds="all values of all four parts of up to three places, all 32-bit locations; no other bound", assumptions=COMMON_ASSUME),
    "P15": dict(harness=["query"], runs=lambda t: [R(e, params=dict(huge=1) if h else {}, reach=["queried"]) for e in
                                                   ("query_plain", "query_cached", "query_history", "query_history_cached") for h in (0, 1)],
                bounds="each of three cards of a field (pile, zone, material); every pair of the 24 fields present over none, and absent from "
                "(or changed over) all; all values symbolic at full width; lists of 0..2, 17 and 300 targets and counters",
                assumptions=COMMON_ASSUME),
    "P13": dict(harness=["events"], runs=lambda t: event_runs(t, "ev_parse"), bounds=event_bounds, assumptions=COMMON_ASSUME),
    "P14": dict(harness=["events"], runs=lambda t: event_runs(t, "ev_undo"), bounds=event_bounds, assumptions=COMMON_ASSUME),
    "P17": dict(harness=["context"], runs=lambda t: context_runs(t),
                bounds=lambda t: "%d registrations or questions in any order and up to %d departures before a question, three takings of 0..%d deferred materials, the places differing in any two "
                "of their four parts (one departure: in all four), all numbers symbolic at full width; boards after %s messages around one change of any kind; one question after %d departures of "
                "which some repeat, 90 and 300 deferred materials" %
                ((3, 2, 4, "one message over 2 cards per spot, two over 1, and 30 fixed", 270) if t == "quick" else (4, 3, 7, "one message over 3 cards per spot, two over 2, and 120 fixed", 270)),
                assumptions=COMMON_ASSUME),
    "P18": dict(harness=["room"], runs=lambda t: [R("room_enter", params={"limits": n, "visitors": 18}, reach=["entered"]) for n in range(4)] +
                [R("room_crowd", params={"visitors": 300 if t != "quick" else 260}, reach=["entered"], cost=20)],
                bounds=lambda t: "0..3 limits and the way to decide the first turn symbolic at full width, 18 visitors (one seat each to all full and watchers); "
                "%d visitors in a room of 1+1 seats, up to the choice of who goes first" % (300 if t != "quick" else 260),
                assumptions=COMMON_ASSUME),
    "P19": dict(harness=["room"], runs=lambda t: room_runs(t, "room_ready"),
                bounds=lambda t: "1 to 6 players and 0 to 2 watchers in rooms of 1+1 to 3+3 seats (full and not), two or all players in any stage of preparation, "
                "then up to %s signals of any kind from anyone, any verdicts; a newcomer at the end" % ("3 (1+1 seats)" if t == "quick" else "4"), assumptions=COMMON_ASSUME),
    "P20": dict(harness=["room"], runs=lambda t: room_runs(t, "room_start"),
                bounds=lambda t: "1 to 6 players and 0 to 2 watchers in rooms of 1+1 to 3+3 seats, all ready but for at most one in any stage, any starter, all four "
                "methods, then up to %d signals of any kind from anyone; dice and coins of 32 bits, up to %d ties" %
                ((2, 9) if t == "quick" else (3, 15)), assumptions=COMMON_ASSUME),
    "P21": dict(harness=["pipeline"], runs=lambda t: pipeline_runs(t), bounds=lambda t: PIPELINE_BOUNDS % (("every ordered pair", 19) if t == "quick" else ("every ordered pair, by either player, and triples with at most one move or Xyz summon,", 59)), assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P22": dict(harness=["pipeline"], runs=rewind_runs, bounds=lambda t: "every such action, every ordered pair%s, and each such action within %d and within 299 fixed others; then back by three events, "
                "forth by two, back to the start, forth to the end, the field compared with the core's at each point (in the long histories: around the last events and at both ends); "
                % ((" but those of two moves or Xyz summons", 11) if t == "quick" else ("", 29)) + PIPELINE_BOUNDS.partition(" kinds of ")[2].partition("; each such")[0].join(("thirteen kinds of ", "")), assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P23": dict(harness=["pipeline"], runs=know_runs, bounds=lambda t: "one action of the core (any of thirteen kinds, at any spots) before or after refreshing any card or all cards at any location, and both "
                "(for moves and Xyz summons: either) within %d fixed other actions and refreshes, and (all but moves, attaching and Xyz summons) within 299; what is told: code, position, attack, codes of materials (symbolic at full width)" % (9 if t == "quick" else 23), assumptions=COMMON_ASSUME + CODEC_ASSUME),
    "P24": dict(harness=["choice"], runs=choice_runs,
                bounds=lambda t: "lists of 0..%d (and 7, 40, 131, 259) candidates; one, two or all of them picked, of many the ends and the middle; every zone "
                "in each of four windows of 8 symbolic zones, the rest all free or all taken; values symbolic at full width, races of 32 bits, as are all defined ones; not orders, "
                "rock-paper-scissors, counters, sums and card names (not translated, or not read back here)" % (3 if t == "quick" else 6),
                assumptions=COMMON_ASSUME + CODEC_ASSUME),
}
