"""What each check runs: the models, exports and bounds, per property."""


def M(module, invariants=(), spec="Spec", properties=(), **kw):
    d = {"module": module, "spec": spec, "invariants": list(invariants), "properties": list(properties)}
    d.update(kw)
    return d


def X(module, out, constants=None, **kw):
    d = {"module": module, "out": out, "constants": constants or {}}
    d.update(kw)
    return d


def answering(threads, most, makes=("none", "own", "whole", "part", "last", "worn", "spoiled", "shared", "first")):
    return M("MCAnswers", ["Trusted", "Found", "Noted"], workers=1, post="AllFound",
             constants={"Threads": frozenset(threads), "Makes": frozenset(makes), "Most": most})


PIECE_INV = ["TypeOK", "KeepsOrbit", "Rigid", "Inverses", "Amounts", "SameAxisCommute", "WholeTurn", "Monotone",
             "ObsInjective", "SolvedIsStickers"]


def piece(n, **kw):
    return M("MCPiece", PIECE_INV, constants={"N": n}, post="Reached", **kw)


def held(n, homes=False, **kw):
    return M("MCHeld", ["WideIsPhysical", "SliceIsPhysical", "Capacity", "AllLayers", "Undo", "SliceAndSides",
                        "NoMiddle"], constants={"N": n, "AllHomes": homes}, post="Reached", **kw)


def geo(*sizes):
    return X("Export", "tables.json", {"Sizes": frozenset(sizes)})


def words(n, **kw):
    return M("MCWords", ["Proper", "Canonical", "Irredundant", "Cancels", "Relations"], constants={"MaxLen": n}, **kw)


def connect(n, k=2, **kw):
    return M("MCConnect", ["Unique", "Undone"], constants={"N": n, "MaxTurns": k}, **kw)


def index(k, m, b, det, **kw):
    return M("MCIndex", ["Legal", "InRange", "ThereAndBack"], constants={"K": k, "Mp": m, "B": b, "Det": det},
             post="Counted", **kw)


def builder(which, **kw):
    return M("MCBuilder", ["Exact", "Frontier", "Done", "OnlyExact"], properties=["Ends"], constants={"Which": which}, **kw)


def certificate(which, most=6, **kw):
    return M("MCCertificate", ["OnlyDistances"], constants={"Which": which, "Most": most}, **kw)


def store(size, most, values, **kw):
    return M("MCStore", ["Sane", "NeverWrong", "CrashSeen", "Untouched", "Made", "ReadsBack", "RefusedKept"],
             constants={"Size": size, "Bytes": frozenset(values), "MaxLen": most}, **kw)


def repair(k, m, **kw):
    return M("MCRepair", ["Whole", "Own", "Leaves", "Few"], constants={"K": k, "M": m}, **kw)


def estimate(n, most, **kw):
    return M("MCEstimate", ["QuarterBound", "TurnBound", "Nothing", "SolvedIsNothing", "CrossBound", "Parts"],
             constants={"N": n, "Most": most}, **kw)


def race(threads, calls, swaps, **kw):
    return M("MCRace", ["Sound", "One", "OneTable", "OneLoads"], properties=["Kept", "Answered"],
             constants={"Threads": frozenset(threads), "Versions": frozenset([1, 2]), "Calls": calls, "Swaps": swaps}, **kw)


def named(n, before, **kw):
    return M("MCNamed", ["Known", "Returns", "NotEarlier"], constants={"N": n, "Before": before}, spec="NSpec", **kw)


def cross(f):
    return X("MCCross", "cross%d.csv" % f, {"FaceNo": f}, invariants=["Out", "NeverMore", "ZeroOnly", "Places"], view="Alone",
             post="All", workers=1)


CROSSES = [cross(f) for f in range(1, 7)]
INDEX = X("ExportIndex", "index.json")
PUZZLES = X("ExportBuilder", "puzzles.json")
WORDS = X("ExportWords", "words.json")
GEO_ASSUME = [
    "The specification's geometry (rotations of space as signed permutations, pieces as points of an n x n x n "
    "lattice) is the physical cube.",
    "The projection of a piece's fields to place and mark (harness/src/observe.rs).",
]
MC = "model_checking"

CHECKS = {
    "C01": dict(
        feature="turns", level=MC, exports=[geo(2, 3)],
        models=[piece(2), piece(3)],
        assumptions=GEO_ASSUME,
        technique="TLA+ model of the cube as rotated lattice points, exhaustive per piece in TLC; spec behaviours "
                  "replayed into the code and recorded runs validated by TLC",
        note="Every (piece, state, turn) step of the specification is compared with the code on whole-cube walks "
             "(coverage measured), every move type included; recorded runs are accepted by TLC. Sampled in the "
             "combination of pieces, exhaustive per piece."),
    "C02": dict(
        feature="turns", level=MC, exports=[geo(4, 5, 6, 7)],
        models=[piece(4), piece(5), piece(6), piece(7)],
        assumptions=GEO_ASSUME + ["Pieces of sizes 4 to 7 are read from the Debug text, their only public view."],
        technique="TLA+ layer model of sizes 4 to 7, exhaustive per piece in TLC; replay and TLC trace validation",
        note="Every (piece, state, face, amount, depth) step per size is compared with the code through every move "
             "type, coverage measured; recorded runs validated by TLC."),
    "C03": dict(
        feature="turns", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[piece(3)], thorough_models=[piece(4), piece(5)],
        assumptions=GEO_ASSUME,
        technique="sticker-colour predicate of the TLA+ cube against the solved check on replayed behaviours, "
                  "isolated single-kind effects and TLC-validated runs",
        note="Solved states, looks-solved states with exchanged identical centres, and states where one kind of "
             "piece alone is displaced, on every size; every piece against every home."),
    "C04": dict(
        feature="turns", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[piece(3)], thorough_models=[piece(4), piece(5)],
        assumptions=GEO_ASSUME,
        technique="TLA+ action inverses (TLC invariant) bound by exhaustive per-move undo replay and TLC-validated "
                  "recorded undo runs",
        note="Every move of every type undone both ways from random states of every cube that takes it; algs at random."),
    "C05": dict(
        feature="turns", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[piece(3)], thorough_models=[piece(4), piece(5)],
        assumptions=GEO_ASSUME,
        technique="equality of TLA+ model states against == and hash on replayed pairs of behaviours and TLC-validated runs",
        note="Pairs equal by construction (rewritten words), pairs differing in one kind of piece, all pairs of pieces."),
    "C06": dict(
        feature="turns", level=MC, exports=[geo(2, 3)],
        models=[piece(2), piece(3)],
        assumptions=GEO_ASSUME,
        technique="cube laws as TLA+ invariants (inductive over every turn, TLC) checked on random and turned cubes "
                  "and on TLC-validated recorded runs",
        note="The laws are shown inductive in TLC; random cubes from several kinds of random source, including "
             "constant and biased ones, are checked against them."),
    "C12": dict(
        feature="held", level=MC, exports=[geo(2, 3)],
        models=[M("Orientation", ["OTypeOK", "OPerp", "OFaces", "OKnown", "OTwo", "OReturns", "OAll"], spec="OSpec")],
        assumptions=GEO_ASSUME[:1],
        technique="TLA+ model of the 24 ways to hold a cube, complete in TLC; every face pair, orientation pair and "
                  "rotation path replayed into the code, recorded rotations validated by TLC",
        note="Exhaustive over the 36 face pairs, the 24 orientations and rotation paths of length up to 3 from each."),
    "C13": dict(
        feature="held", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[held(n) for n in (2, 3, 4, 5, 6, 7)],
        thorough_models=[held(n, True, workers=4) for n in (2, 3, 4, 5, 6, 7)],
        assumptions=GEO_ASSUME,
        technique="TLA+ model of turning a held cube, checked against the physical cube in TLC; every orientation and "
                  "move replayed, sessions validated by TLC",
        note="All 24 orientations times all rotations, face turns, wide and slice turns (depths to the largest u32) "
             "on every size; random sessions validated by TLC."),
    "C27": dict(
        feature="held", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[M("MCHeld", ["SolvedInHand"], constants={"N": n, "AllHomes": n < 6}, post="Reached") for n in (2, 3, 4, 5, 6, 7)],
        thorough_models=[M("MCHeld", ["SolvedInHand"], constants={"N": n, "AllHomes": True}, post="Reached") for n in (6, 7)],
        assumptions=GEO_ASSUME,
        technique="TLA+ predicate of a solved held cube (shown in TLC to be every side in the hand showing its own "
                  "colour), on states that are, look or nearly are solved, held all 24 ways; recorded sessions with "
                  "solved and equality answers validated by TLC",
        note="States with one kind of piece displaced, identical centres exchanged, even cubes turned as a whole, and "
             "random ones, on every size, times 24 orientations; equalities with cubes differing in state, hold, "
             "both or only in how they were reached."),
    "C07": dict(
        feature="notation", level=MC, exports=[X("ExportNotation", "notation.json")],
        models=[M("MCNotation", ["Short", "Agrees", "Useful", "IsRun", "TypeOK"], post="Reached")],
        assumptions=["Texts longer than the exhaustive bound are reached by random changes to valid ones."],
        technique="TLA+ reader automaton, shown equal to the notation's language in TLC, run in lockstep with every "
                  "parser on all short texts and on mutated ones; recorded parses validated by TLC",
        note="Exhaustive over all texts of up to three characters from 72 and of four from the grammar's 34, for 15 "
             "parsers; random beyond; whole algs with every kind of white space."),
    "C08": dict(
        feature="notation", level=MC, exports=[X("ExportNotation", "notation.json")],
        models=[M("MCNotation", ["Short", "Agrees", "Useful", "IsRun", "TypeOK"], post="Reached")],
        assumptions=["A printed text means what the specification's reader reads."],
        technique="every printed value read back by the TLA+ reader automaton and by the code; recorded printings "
                  "validated by TLC",
        note="All face turns, all wide turns of depth up to 30 and around the largest number, combined moves, and "
             "random algs."),
    "C25": dict(
        feature="notation", level=MC, exports=[X("ExportDepth", "depth.json")],
        models=[M("Depth", ["Within", "DTypeOK"], spec="DSpec", properties=["Refused"])],
        assumptions=["Fifteen limits and depths up to the largest number stand for all."],
        technique="TLA+ state machine of a wide turn's life, complete in TLC; all its steps replayed, recorded lives "
                  "validated by TLC",
        note="All pairs of limit and depth from fifteen numbers (0 to the largest), all ways to make and change a "
             "wide turn."),
    "C09": dict(
        feature="algs", level=MC, exports=[WORDS, geo(2, 3, 4, 5)],
        models=[words(4), piece(3), piece(4)], thorough_models=[words(5, workers=6, heap="8g")],
        assumptions=["Normal forms use only that turns of one face add up and turns of opposite faces commute; "
                     "both are shown on the cube's own model (MCPiece)."],
        technique="TLA+ normal forms of words (all words up to a length in TLC) against the code's normalising on all "
                  "short words and cancelling long ones; recorded normalisations validated by TLC",
        note="All words of up to 4 turns, all of up to 5 over two axes, random ones up to 200 turns rich in "
             "cancellations, wholly cancelling words; effects on real cubes of all sizes."),
    "C10": dict(
        feature="algs", level=MC, exports=[WORDS, geo(2, 3, 4, 5, 6, 7)],
        models=[words(3), piece(3), piece(4)], thorough_models=[words(4)],
        assumptions=["What the documentation calls the parts of a combined move: positive end first."],
        technique="TLA+ state machine of combined moves, complete (46 states x 18 turns), replayed into the code; "
                  "recorded merges and conversions validated by TLC",
        note="Exhaustive over combined moves and turns with their effect on real cubes of every size; conversions "
             "exhaustive per move and random per alg; widened turns against the layer model."),
    "C11": dict(
        feature="algs", level=MC, exports=[WORDS],
        models=[words(4)],
        assumptions=["Random sources: ten kinds, constant and biased ones included, and the library's own."],
        technique="TLA+ redundancy predicate (all words up to a length in TLC) on recorded random algs, validated by TLC",
        note="Lengths 0 to 18 and up to 500 from eleven kinds of random source; all 18 starts seen per length."),
    "C22": dict(
        feature="algs", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[connect(2), connect(3), connect(4), connect(5)], thorough_models=[connect(6), connect(7), connect(2, 3), connect(3, 3)],
        assumptions=GEO_ASSUME,
        technique="TLA+ relation of linked cubes (uniqueness of links explored in TLC) against connect and "
                  "try_from_states; recorded answers validated by TLC",
        note="All 18 turns, pairs of turns, inner-layer turns and equal cubes from random states of every size; lists "
             "of states with and without gaps."),
    "C14": dict(
        feature="mus", level=MC, exports=[geo(3), INDEX],
        models=[index(4, 4, 3, True), index(3, 5, 2, False), index(2, 6, 3, True), index(3, 4, 1, False)],
        thorough_models=[index(5, 5, 3, True), index(4, 6, 2, False)],
        assumptions=GEO_ASSUME[1:],
        technique="TLA+ definition of a numbering and of the number of arrangements (small families complete in TLC); all "
                  "numbers of both real tables taken there and back, small families listed and validated by TLC",
        note="All 88,179,840 corner and 42,577,920 half-edge numbers there and back; eleven small families listed "
             "completely; random whole cubes."),
    "C15": dict(
        feature="mus", level=MC, exports=[geo(3), INDEX, PUZZLES], binary=True,
        models=[builder(w) for w in (1, 2, 3, 4, 5, 6, 8)] + [certificate(w) for w in (1, 2, 3, 4, 5)],
        thorough_models=[certificate(w, 7) for w in (2, 4)],
        assumptions=GEO_ASSUME + ["Within the small puzzles numbers are given by the specification."],
        technique="TLA+ model of the table builder (exact and terminating on a family of puzzles in TLC); its certificate "
                  "of exactness, shown to hold of no other table in TLC, evaluated on the whole real tables built by the "
                  "real program, and by TLC on the tables of nine small puzzles",
        note="Both real tables are built and every entry certified over all 18 turns; nine puzzles, symmetric or not, up "
             "to 250 deep, through the generic builder."),
    "C16": dict(
        feature="mus", level=MC, exports=[geo(3)], thorough_binary=True,
        models=[M("MCHeur", ["Heard", "Whole"], properties=["Fixed", "OnlyMus"],
                  constants={"Versions": frozenset([1, 2]), "Entry": "<-Ent"}),
                M("MCAdmissible", ["Admissible", "OneTable"], constants={"A": 11, "B": 13})],
        assumptions=["The numbers of corners and half edges are those of C14.", "Tables with made-up entries stand for all."],
        technique="TLA+ state machine of table use (complete in TLC) replayed into processes with made-up tables on disk; "
                  "recorded histories validated by TLC",
        note="Histories of lookups, fallbacks, first uses, loads and file changes in fresh processes, with entries that "
             "tell every number apart; many random cubes per process. Thorough: also the real tables against the lengths "
             "of known solutions."),
    "C17": dict(
        feature="mus", level=MC, exports=[geo(3), PUZZLES],
        models=[store(1, 2, [0, 1]), store(2, 3, [0, 1])], thorough_models=[store(3, 4, [0, 1])],
        assumptions=["A crash while storing leaves a beginning of the table."],
        technique="TLA+ model of a table on disk with crashes and edits (all histories for small tables in TLC); random "
                  "histories on the real code validated by TLC; real tables in every pair of file conditions",
        note="Small tables through the generic store: histories of load, load-or-build, store, full disks and edits, every "
             "answer and file compared; real tables: all pairs of nine conditions for loading."),
    "C18": dict(
        feature="search", level=MC, exports=[geo(3)],
        models=[M("MCSearch", ["AlwaysRight"], constants={"N": 3, "K": 2, "Estimates": frozenset([0, 3, 4, 8]),
                                                          "Limits": frozenset([0, 2])})],
        thorough_models=[M("MCSearch", ["AlwaysRight"], constants={"N": 4, "K": 2, "Estimates": frozenset([0, 3, 4]),
                                                                   "Limits": frozenset([3])}, workers=6, heap="8g")],
        assumptions=["Estimates are not negative.", "Graphs of up to nine states with up to four turns each stand for all."],
        technique="TLA+ model of the search (right on all graphs of three states in TLC); random graphs and real cubes "
                  "searched and compared with its oracle of least turns, recorded answers validated by TLC",
        note="All kinds of estimates (none, exact, fractional, infinite, too large), targets and limits on random graphs; "
             "real cubes up to seven turns from solved."),
    "C19": dict(
        feature="search", level=MC, exports=[geo(3)] + CROSSES, models=[],
        assumptions=GEO_ASSUME,
        technique="all 190,080 states of each face's cross explored by TLC with their least turns; both solvers run on "
                  "states of every distance, their answers validated by TLC (no shorter one, by meeting in the middle)",
        note="The exact solver on all states up to two turns, samples up to seven (the slow ones few); the fast one up "
             "to eight; counting on random and nearly crossed cubes, all faces."),
    "C20": dict(
        feature="search", level=MC, exports=[geo(3), X("ExportSteps", "steps.json")] + CROSSES, models=[],
        assumptions=GEO_ASSUME,
        technique="all 190,080 states of each face's cross explored by TLC with their least turns; every estimate of the "
                  "code compared with them, a sample validated by TLC again",
        note="Complete: 12 edges in 24 states, and all cross states of all six faces (other pieces at random)."),
    "C21": dict(
        feature="net", level=MC, exports=[geo(3), X("ExportNet", "net.json", {"N": 3}, spec="XSpec")],
        models=[M("MCNet", ["Nine", "Follows", "SolvedLooks"], spec="NSpec", constants={"N": 3, "Most": 2})],
        assumptions=GEO_ASSUME + ["A terminal shows two characters as one square."],
        technique="TLA+ model of a cube's stickers, its unfolded sheet and what turns do to them (TLC); every square of "
                  "pictures and printed sheets compared, recorded sessions validated by TLC",
        note="Every pair of turns and two million random cubes, square by square; printed sheets with random colour "
             "schemes; sessions of turning and looking validated by TLC."),
    "C28": dict(
        feature="picture", level=MC,
        exports=[geo(3), X("ExportSheet", "sheets.json", {"Sizes": frozenset([2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 24, 33, 64])}),
                 ],
        models=[M("MCPicture", ["Twice", "Order", "Only", "Whole"], spec="MSpec", constants={"N": 3, "S": n, "Most": 1})
                for n in (2, 3, 4, 5)] +
               [M("MCNet", ["Nine", "Follows", "SolvedLooks"], spec="NSpec", constants={"N": n, "Most": 1}) for n in (2, 4, 5)],
        thorough_models=[M("MCPicture", ["Twice", "Order", "Only", "Whole"], spec="MSpec", constants={"N": 3, "S": n, "Most": 2})
                         for n in (3, 6, 7)] +
                        [M("MCNet", ["Nine", "Follows", "SolvedLooks"], spec="NSpec", constants={"N": n, "Most": 1}) for n in (6, 7)],
        assumptions=GEO_ASSUME + ["A terminal shows two characters as one square.",
                                  "A square is found at points up to a fifth of the distance to the next one from its middle."],
        technique="TLA+ model of the sheet of any size (its squares and the cube's places agree, TLC) and of a picture "
                  "as something to paint; every square of ten sizes looked up at points near it, recorded sessions of "
                  "painting, filling, asking and printing validated by TLC",
        note="Complete in squares for sizes 2 to 9, 12, 15, 16, 24, 33 and 64, nine points each; sessions on sizes 2 to 7 with random "
             "colours and schemes."),
    "C26": dict(
        feature="play", level=MC, binary=True,
        exports=[geo(3), X("ExportNet", "net.json", {"N": 3}, spec="XSpec"), X("ExportNotation", "notation.json")],
        models=[M("MCPlayground", ["OnlyValid", "SliceIs"], spec="MSpec", properties=["Single", "Turning", "Refused"],
                  constants={"N": 3, "MaxLayers": 3, "Most": 3})],
        thorough_models=[M("MCPlayground", ["OnlyValid", "SliceIs"], spec="MSpec",
                           properties=["Single", "Turning", "Refused"],
                           constants={"N": 3, "MaxLayers": 3, "Most": 4}, workers=6, heap="6g")],
        assumptions=GEO_ASSUME + ["A terminal shows two characters as one square.",
                                  "What is told on the error output, or without any cube, is an error."],
        technique="TLA+ model of playground sessions (all short ones from a vocabulary in TLC); sessions typed into the "
                  "real program, every answer validated by TLC",
        note="Thirty-two sessions of 250 lines: valid ones, nearly valid ones, empty ones, all white space, bytes that are "
             "no text; the reader, the held cube and the printed sheet are those of the specification."),
    "C29": dict(
        feature="random", level=MC, exports=[geo(2, 3)],
        models=[repair(2, 3), repair(3, 0), repair(3, 3)], thorough_models=[repair(4, 0), repair(2, 4)],
        assumptions=GEO_ASSUME + ["The random sources used (StdRng, splitmix64, the library's own) are fair.",
                                  "Bias too small to be seen in a million draws is not seen."],
        technique="TLA+ model of drawing and repairing (in TLC every possible arrangement comes from equally many draws, and "
                  "the tallied marginals are even); tallies of real draws decided by TLC",
        note="A million draws per size: all pairs of pieces in 24 x 24 states, triples of places, parity, sums of marks, "
             "repeats (the whole 2x2x2 by its birthday count)."),
    "C30": dict(
        feature="random", level=MC, exports=[geo(2, 3)],
        models=[repair(2, 3), repair(3, 0), repair(3, 3)], thorough_models=[repair(4, 0), repair(2, 4)],
        assumptions=GEO_ASSUME,
        technique="TLA+ model of arrangements and the three repairs (all small ones, all orders, in TLC); arrangements of "
                  "all twelve classes repaired by the code and compared, recorded histories validated by TLC",
        note="200,000 arrangements of every class, few pieces away or all (among them all 8! orders of the corners, all flips, all "
             "twists, all pairs of cycle structures), repaired in every order; 250 histories "
             "validated by TLC."),
    "C31": dict(
        feature="random", level=MC, exports=[geo(2, 3), X("ExportSteps", "steps.json")],
        models=[estimate(3, 3), estimate(2, 4)], thorough_models=[estimate(3, 4)],
        assumptions=GEO_ASSUME,
        technique="TLA+ definition of the estimates over the cube model, its bounds (never more than the quarter turns spent; "
                  "zero exactly at home) exhaustive in TLC near the solved cube and per piece; the real estimates of cubes and "
                  "arrangements validated by TLC",
        note="All pieces in all states; 1500 cubes and 400 pairs of points validated by TLC, 300,000 more compared, with sums "
             "over chosen pieces and the estimates for the crosses of all faces."),
    "C32": dict(
        feature="mus", level=MC, exports=[geo(3)],
        models=[race([1, 2], 2, 2), race([1, 2, 3], 1, 2)], thorough_models=[race([1, 2, 3], 2, 2)],
        assumptions=["The numbers of corners and half edges are those of C14.", "Tables with made-up entries stand for all.",
                     "A file is replaced at once (renamed), so that it is never absent or half written.",
                     "Schedules are those the machine's scheduler produces, pushed about by random delays."],
        technique="TLA+ model of threads, loading in steps and changing files (every interleaving of up to three threads in "
                  "TLC), and of what can be heard of it from outside; histories of real threads, ordered by a shared clock, "
                  "validated by TLC against the latter",
        note="24 fresh processes of two to eight threads with random delays and files renamed meanwhile, made-up tables; "
             "then all threads at full speed, 150,000 answers each."),
    "C33": dict(
        feature="random", level=MC, exports=[geo(3)],
        models=[M("MCDrawn", ["Exact", "Told", "Even"], constants={"Long": 4})],
        thorough_models=[M("MCDrawn", ["Exact", "Told", "Even"], constants={"Long": 6})],
        assumptions=["The sources of chance used (SplitMix, StdRng in one or in many streams, thread_rng) are fair.",
                     "Tallies off by more than seven standard deviations, or chi-squares by more than eight, are no accident."],
        technique="TLA+ model of how turns and algs are drawn (exhaustive in TLC: what the word tells of the draws, that all "
                  "words without redundancy come up); tallies of many real draws held by TLC against what the model makes "
                  "equally likely",
        note="1.9 million values each of twelve kinds, alone and in pairs; 480,000 random algs of 2 to 20 turns, by their first "
             "combined move, by what follows each of the 45, and by three axes in a row."),
    "C35": dict(
        feature="random", level=MC, exports=[geo(3)],
        models=[M("MCSource", ["Honest", "Seen", "Whole"], constants={"Depth": 2, "Most": 3})],
        thorough_models=[M("MCSource", ["Honest", "Seen", "Whole"], constants={"Depth": 2, "Most": 5}, workers=6, heap="8g")],
        assumptions=["Rows of words that part after one to ten words stand for all sources."],
        technique="TLA+ specification of draws as reading trees (exhaustive in TLC: draws by trees agree, draws that remember "
                  "or look elsewhere do not); real draws from recorded sources repeated in every circumstance, and TLC's "
                  "judgement whether all draws of a kind can be one tree's",
        note="Thirty-seven kinds of draws from 900 sources that part at different words, again, among other draws, in "
             "threads at once and in the middle of a source."),
    "C36": dict(
        feature="answers", level=MC, exports=[geo(3)],
        models=[answering({1, 2}, 4)],
        thorough_models=[answering({1, 2, 3}, 3), answering({1, 2, 3, 4}, 2, ("own", "shared", "first"))],
        assumptions=["Races between threads show themselves within some ten thousand questions, if they can."],
        technique="TLA+ specification of questions asked in threads and processes and of libraries that keep things in many "
                  "ways (exhaustive in TLC: the plan of asking tells the honest from the others); the real operations asked "
                  "by that plan, and what was asked and told validated by TLC",
        note="About 2150 questions of 71 kinds, again in several orders, in eight threads at once, and as the first of ten processes."),
    "C34": dict(
        feature="turns", level=MC, exports=[geo(2, 3, 4, 5, 6, 7)],
        models=[named(n, 1) for n in (2, 3, 4, 5)], thorough_models=[named(6, 1), named(7, 1), named(3, 2), named(4, 2)],
        assumptions=GEO_ASSUME,
        technique="TLA+ definition of what each named alg does to corners, edge rows and centres, plain and widened, checked in "
                  "TLC against the usual spelling turn by turn, from solved and turned cubes; the real algs done on real cubes "
                  "of all sizes validated by TLC against it",
        note="Four algs, forwards and backwards, at all depths, on six sizes, in eight ways of doing them: 576 starts, and all "
             "repetitions up to twice the order."),
    "C23": dict(
        feature="space", level=MC, exports=[geo(3)],
        models=[M("MCSpace", ["Rigid", "Faithful", "Undone"], view="Alone", post="All")],
        assumptions=GEO_ASSUME,
        technique="TLA+ specification of faces, axes, directions, amounts, rotations and places derived from the rotation "
                  "group, its laws and a rotation machine exhaustive in TLC; every question with every argument asked of "
                  "the real functions, and long histories of rotations of real things of every kind, validated by TLC",
        note="Complete: all arguments of every function (about 4000 questions), and walks through all 24 orientations.",
    ),
    "C24": dict(
        feature="sets", level=MC, exports=[geo(3)],
        models=[M("MCPieceSet", ["Kept", "Lookups", "Swapping", "Found"],
                  constants={"Homes": "<-H3", "Places": frozenset([1, 2, 3, 4]), "Marks": frozenset([0, 1, 2])})],
        thorough_models=[M("MCPieceSet", ["Kept", "Lookups", "Swapping", "Found"], workers=6,
                           constants={"Homes": "<-H4", "Places": frozenset([1, 2, 3, 4]), "Marks": frozenset([0, 1, 2, 3])})],
        assumptions=["Two made-up kinds of pieces, told apart by place and mark or by the mark alone, and the six real "
                     "kinds stand for all.", "Looking up where nothing is, or the home of nothing, is outside the domain."],
        technique="TLA+ state machine of sets of pieces (all small sets and all that can be done to them in TLC); recorded "
                  "histories of made-up and real sets, with all that can be asked after each step, validated by TLC",
        note="All arrays of up to three made-up pieces; histories of swaps, moves, shuffles and changes on sets of up to "
             "48 pieces of ten kinds; lookups both ways on half a million real cubes."),
}
