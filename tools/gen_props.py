import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
S="barbarosa/src/"
CN=S+"cube_n/"
C3=CN+"cube3/"
p("C01","Face turns on the 2x2x2 and 3x3x3 act as on the physical cube",
 "After any sequence of face turns on a 2x2x2 or 3x3x3, every corner and edge piece is at the position and in the orientation (twist/flip) it would have on a physical cube that was turned the same way. A turn rotates exactly the pieces currently on the named face, rigidly, clockwise as seen from outside that face by one, two or three quarter turns, and leaves every other piece untouched.",
 ["histories","inputs"],"every sequence of the 18 face turns from the solved state (and from every legal state), both sizes, every piece",
 "Tests apply a handful of order-n algs and one single F turn on one edge; a wrong but still finite-order action on pieces the algs do not touch, or in states they do not reach, passes.",
 [C3+"mod.rs",CN+"cube2/mod.rs",CN+"pieces/corner.rs",CN+"pieces/edge.rs",CN+"moves/rotation.rs",CN+"space/face.rs",S+"generic/piece/set.rs"],
 [("Movable<AxisMove> for Cube2/Cube3","cube2/mod.rs, cube3/mod.rs"),("Corner/Edge apply and rotate","pieces/corner.rs, pieces/edge.rs"),("flips_edge_orientation, rotate_vec2, Axis/Vec3 rotation","moves/rotation.rs")],
 [("corner position + orientation axis","where the corner is and which axis carries its U/D sticker","pieces/corner.rs"),("edge position + oriented flag","where the edge is and whether its orientation sticker is in place","pieces/edge.rs")],
 ["Cube3.edges, Cube3.corners, Cube2.corners after each apply"])
p("C02","Turns on the 4x4x4 to 7x7x7 move exactly the layers asked for",
 "On every size from 4 to 7, a turn of depth d on a face rotates rigidly exactly the pieces in the d+1 outermost layers on that side and nothing else, for every kind of movable piece the puzzle physically has (corners, middle edges, wings, and all movable centres). The same face, amount and depth have the same effect whichever move type carries them, and a plain face turn is a depth-0 turn.",
 ["histories","inputs"],"every sequence of turns of every face, amount and allowed depth, every move type accepted, every piece of every size",
 "Tests check that short algs return to solved; pieces that are missing, move with the wrong layer, or a depth that is ignored still return to solved.",
 [CN+"cube4/mod.rs",CN+"cube5/mod.rs",CN+"cube6/mod.rs",CN+"cube7/mod.rs",CN+"moves/wide.rs",CN+"pieces/wing.rs",CN+"pieces/center/corner.rs",CN+"pieces/center/edge.rs",CN+"pieces/center/wing.rs"],
 [("is_in_wide_move for each DepthPiece","pieces/wing.rs, pieces/center/*.rs"),("DepthPieceSet::apply","moves/wide.rs"),("impl_movable_wide_move_inductively","moves/wide.rs")],
 [("piece sets with normal/tangent depth","one set per physical orbit","cubeN/mod.rs")],
 ["Debug rendering of Cube4..Cube7 after each apply","Wing/CenterEdge/CenterWing accessors"])
p("C03","A cube reports solved exactly when every face shows only its own colour",
 "For every size from 2 to 7 and every reachable state, the solved check is true if and only if every sticker shows the colour of the face it is on (same-coloured centre pieces are interchangeable; a rotated but otherwise solved cube is not solved). The per-piece solved check agrees with the same rule for every piece in every place.",
 ["histories","inputs"],"all reachable states, including those where only one kind of piece is displaced or only identical centres are exchanged",
 "Tests only call it on solved cubes and right after one alg; states differing from solved only in centres are never reached.",
 [CN+"cube4/mod.rs",CN+"cube5/mod.rs",CN+"cube6/mod.rs",CN+"cube7/mod.rs",CN+"pieces/center/corner.rs",CN+"pieces/center/edge.rs",CN+"pieces/center/wing.rs",S+"generic/mod.rs",S+"generic/piece/set.rs"],
 [("Cube::is_solved and overrides","generic/mod.rs, cubeN/mod.rs"),("Piece::is_solved for every piece","pieces/**")],None,["is_solved()"])
p("C04","Undoing: inverses and reversed algs restore the exact prior state",
 "For every move type (face, quarter, wide, rotation, slice, combined same-axis and extended moves) and every cube that accepts it, applying a move and then its inverse, in either order, gives back exactly the state before; applying an alg and then its reversed form does too. Applying an alg equals applying its moves one by one in order, and reversing twice gives the alg back.",
 ["histories","inputs"],"all moves, all algs, all starting states, all sizes, plain and orientable cubes",
 "Tests check one random alg on a 3x3 and one on a 4x4 from solved.",
 [S+"generic/moves.rs",S+"generic/alg.rs",CN+"moves/mod.rs",CN+"moves/amount.rs",CN+"moves/quarter.rs",CN+"moves/wide.rs",CN+"moves/extended.rs",CN+"moves/rotation.rs",CN+"moves/non_redundant.rs"],
 [("Move::inverse impls","moves/*.rs"),("Alg::reversed, Movable<[M]>, Movable<Alg>","generic/alg.rs"),("Amount * Direction","moves/amount.rs")],None,["cube state after apply; value returned by inverse()/reversed()"])
p("C05","Two cubes are equal exactly when their pieces are physically in the same state",
 "For any two move sequences on the same size, the resulting cubes compare equal if and only if every piece is in the same place and orientation in both; equal cubes have equal hashes where hashing is offered. In particular sequences that are the same group element (commuting opposite faces, split doubles, cancelled pairs) lead to equal cubes, and states differing in any single piece compare unequal.",
 ["histories","inputs"],"all pairs of histories on each size",
 "Tests compare only with the solved state.",
 [CN+"cube2/mod.rs",C3+"mod.rs",CN+"cube4/mod.rs",CN+"cube5/mod.rs",CN+"cube6/mod.rs",CN+"cube7/mod.rs",S+"generic/piece/set.rs"],
 [("derived PartialEq/Hash over canonical piece state","cubeN/mod.rs, pieces/**")],None,["==, Hash"])
p("C06","Every cube produced by turning or by random generation is solvable",
 "A 2x2x2 or 3x3x3 obtained by turns, or drawn at random from any random source, always has each piece exactly once, corner twists summing to a multiple of three, and for the 3x3x3 an even number of flipped edges and equal corner and edge permutation parity. Turning never breaks these invariants from any legal state.",
 ["inputs","histories"],"all random seeds; all move sequences from any legal state",
 "One test draws a random cube and asserts nothing; the parity repair has four independent outcomes no test looks at.",
 [CN+"invariants.rs",C3+"mod.rs",CN+"cube2/mod.rs",S+"generic/piece/set.rs",CN+"pieces/corner.rs"],
 [("fix_swap_parity, fix_edge_flip_parity, fix_corner_multiplicity","invariants.rs"),("Distribution<CubeN> for Standard","cube2/mod.rs, cube3/mod.rs")],None,["Cube2/Cube3 drawn from an Rng"])
p("C07","Move notation is accepted exactly per its grammar, with its documented meaning",
 "Parsing an amount, face, face turn, wide turn, rotation, extended move or alg succeeds exactly on the strings of the notation grammar (whole input, nothing before or after) and yields the move that notation denotes; M and E follow L and D, S follows F, a lower-case face or a 'w' suffix means wide, an optional digit gives the depth, and depth above the type's limit is an error. Every other string, including non-ASCII ones, is rejected with an error, never a panic, and one bad token makes a whole alg fail.",
 ["inputs"],"all strings",
 "Tests try about forty hand-picked strings.",
 [CN+"parser/mod.rs",S+"grammar/cube_n.pest",S+"generic/parse.rs",S+"generic/alg.rs"],
 [("pest grammar","grammar/cube_n.pest"),("FromPest impls","cube_n/parser/mod.rs"),("whole-input check in Parsable::parse","generic/parse.rs"),("Alg::parse","generic/alg.rs")],None,["Parsable::parse, TryFrom<&str>"])
p("C08","Printed moves and algs parse back to the same value",
 "Printing any face turn, wide turn or alg of them and parsing the text gives back an equal value, and distinct moves print differently. An alg prints its moves in order, separated by single spaces, the empty alg as the empty string.",
 ["inputs"],"all moves (every face, amount and depth) and all algs",
 "One test prints one move; no test parses what was printed.",
 [CN+"moves/mod.rs",CN+"moves/wide.rs",CN+"moves/amount.rs",CN+"space/face.rs",S+"generic/alg.rs",CN+"parser/mod.rs",CN+"moves/non_redundant.rs"],
 [("Display impls","moves/*.rs, generic/alg.rs"),("parsers","cube_n/parser/mod.rs")],None,["to_string() then parse()"])
p("C09","Normalising an alg keeps its effect and leaves no redundancy",
 "For every alg of face turns, the normalised alg has the same effect on every cube and contains no redundancy: it never has two turns of the same face with only turns of the opposite face between them (or nothing). It is therefore never longer than the original, normalising again changes nothing, and an alg that cancels completely normalises to the empty alg.",
 ["inputs"],"all algs of any length",
 "One doc-test with one alg; cascading cancellations across pairs of opposite faces are not reached.",
 [CN+"moves/non_redundant.rs",CN+"moves/amount.rs"],
 [("Alg::normalized","moves/non_redundant.rs"),("absorve","moves/non_redundant.rs"),("Amount + Amount","moves/amount.rs")],None,["Alg::normalized()"])
p("C10","Other encodings of moves have the same effect as the moves they stand for",
 "A face turn rewritten in quarter turns, combined with turns of the same axis into one combined move, expanded back, or widened, has the same effect on every cube as the original turns, and its parts are the documented ones. Merging a turn into a combined move either yields a combined move equal in effect to doing both (or nothing when they cancel), or reports that it could not and changes nothing; it can always merge turns of the same axis and never those of another.",
 ["inputs","histories"],"all moves, all combined moves, all merge sequences",
 "Tests convert one alg and walk one merge example on a single axis.",
 [CN+"moves/non_redundant.rs",CN+"moves/quarter.rs",CN+"moves/wide.rs",CN+"moves/amount.rs"],
 [("absorve, NonRedundantAxisMove::{moves,of_axis,given_last_axis,all}","moves/non_redundant.rs"),("Alg<AxisMove> -> Alg<QuarterAxisMove>","moves/quarter.rs"),("widen","moves/mod.rs, moves/wide.rs")],None,["results of conversions and absorve"])
p("C11","Random algs have the requested length and no redundancy",
 "A random face-turn alg of length n, for any n and any random source, has exactly n moves and no redundancy (normalising it removes nothing); every one of the 18 face turns can occur at the start. An unnormalised random alg has exactly n moves, and random wide turns never exceed their depth limit.",
 ["inputs"],"all lengths and all random seeds",
 "Tests use random algs as inputs but never assert anything about them.",
 [CN+"moves/non_redundant.rs",S+"generic/alg.rs",CN+"moves/wide.rs"],
 [("Alg::random_with_rng, given_last_axis","moves/non_redundant.rs"),("random_unnormalized_with_rng","generic/alg.rs"),("Distribution<WideAxisMove>","moves/wide.rs")],None,["Alg::random_with_rng(n, rng)"])
p("C12","Cube orientation is tracked exactly through any rotations",
 "Starting from any of the 24 orientations, after any sequence of whole-cube rotations the reported positions of the original R and U faces are where those faces physically are. The list of rotations that an orientation says leads to it from the default orientation really does lead to it, and an orientation can be built from any two perpendicular faces (and from no parallel ones), giving back those faces.",
 ["histories","inputs"],"all 24 orientations, all rotation sequences",
 "Tests check three orientations and the connecting rotation of single faces, not of a full orientation.",
 [CN+"orientable/orientation.rs",CN+"moves/rotation.rs",CN+"space/axis.rs",CN+"space/face.rs"],
 [("Rotatable for Orientation, rotations(), TryFrom<[Face;2]>","orientable/orientation.rs")],[("r_face, handedness, side_direction","where the original R and U faces are","orientable/orientation.rs")],["Orientation::{r_face,u_face,rotations}"])
p("C13","Turns of a held (orientable) cube turn the layers at those places in the hand",
 "On an orientable cube of any size, any sequence of face turns, wide turns of any depth, slice moves and rotations leaves the cube, looked at in its current orientation, as a physical cube handled the same way: moves refer to the layers at that place in the hand, a wide turn reaching all layers is a rotation, and deeper than half is as good as any other. A slice turns all inner layers (upper case) or only the one central layer, which even sizes lack (lower case), in the direction of L, D or F; no move ever panics.",
 ["histories","inputs"],"all orientations, all extended moves incl. every depth up to u32::MAX, all sizes 2 to 7, all sequences",
 "Tests cover face turns in two orientations; wide and slice moves on orientable cubes are never executed by a test.",
 [CN+"orientable/mod.rs",CN+"orientable/orientation.rs",CN+"moves/extended.rs",CN+"moves/rotation.rs"],
 [("Movable<M> for Orientable","orientable/mod.rs"),("impl_movable_extended","moves/extended.rs")],[("base_cube + orientation","state in the cube's own frame and how that frame is held","orientable/mod.rs")],["Orientable.base_cube and .orientation after each apply"])
p("C14","Table indices are a bijection with the states of corners and of half the edges",
 "Every arrangement of the eight corners and every arrangement of six edges has its own index in 0..size, with no gaps, and building the state from an index and taking its index (and vice versa) gives back the same value; the same round trip holds for whole 3x3x3 cubes. The index sizes are exactly the number of such arrangements.",
 ["inputs"],"all 88,179,840 corner and 42,577,920 half-edge indices; all legal cubes",
 "Tests round-trip one random cube and a few fixed values.",
 [C3+"mus/index/mod.rs",C3+"mus/index/implementations.rs",C3+"mus/deindex/mod.rs",C3+"mus/deindex/implementations.rs"],
 [("Indexable::index","mus/index"),("Deindexable::from_index","mus/deindex"),("Cube3::indices/from_indices","mus/index/mod.rs, mus/deindex/mod.rs")],None,["index(), from_index(), Cube3::indices(), Cube3::from_indices()"])
p("C15","The distance-table builder records exact shortest distances",
 "For any puzzle whose states are all reachable in at most 250 turns, the table builder terminates and fills every entry with the least number of face turns that takes the solved state to that entry's state. The finished table has one entry per index and is what gets written to disk.",
 ["inputs","programs"],"all indices of the table; any indexable puzzle whose states are all reachable in at most 250 turns",
 "The only tests are ignored because building takes minutes, and compare with an upper bound only.",
 [C3+"mus/cache/generation.rs",C3+"mus/cache/disk_storage.rs"],
 [("build_partial, cache_neighbours_at_depth","mus/cache/generation.rs")],[("table of u8 by index","255 = not reached yet","mus/cache/generation.rs")],["returned table and written file"],"cfg(verif_hooks): re-exports the generic builder and disk functions")
p("C16","The table heuristic is the maximum of its three exact distances",
 "For every cube, the table heuristic returns the largest of the three table entries for its corners and for its two halves of edges (the second half looked up through the half-turn symmetry that makes one table valid for both), so it never exceeds the true number of turns needed. Before tables are loaded the optional lookup returns nothing and the fallback heuristic is used; afterwards the table value is.",
 ["inputs","histories"],"all cubes; all table contents; any order of lookups, fallbacks and initialisation",
 "Tests that use the tables are ignored.",
 [C3+"mus/cache/mod.rs",C3+"heuristics/mus.rs",C3+"mus/index/mod.rs"],
 [("Cache::get, get_or_init, get","mus/cache/mod.rs"),("mus, mus_with_fallback","heuristics/mus.rs"),("adjust_second_edges_for_indexing","mus/index/mod.rs")],None,["Cache::load().get(cube), heuristics::mus, mus_with_fallback"])
p("C17","A stored table is used only if it is complete; a missing one is rebuilt",
 "Whatever earlier runs, crashes or edits left on disk, loading never yields a table of the wrong length: a truncated or overlong file is refused loudly, a missing file makes plain loading fail and load-or-build rebuild and store it (creating the directory if needed), and an intact file is used byte for byte without being rewritten. What is stored reads back identical.",
 ["crash_points","fault_sequences","histories"],"all file states (absent, directory absent, any prefix of a write, overlong, intact, unreadable), all sequences of load / store / build",
 "No test touches the disk code.",
 [C3+"mus/cache/disk_storage.rs",C3+"mus/cache/mod.rs",C3+"mus/cache/generation.rs"],
 [("load_partial, write_partial, assert_correct_cache_size, load_or_build_partial","mus/cache/disk_storage.rs")],[("mus-cache/*.barbarosa","raw table bytes","working directory")],["Cache::load, Cache::init, files under mus-cache/"],"cfg(verif_hooks): re-exports the generic builder and disk functions")
p("C18","Tree search returns a valid and shortest solution, or none only if there is none",
 "The iterative-deepening search, on any puzzle graph, returns moves that lead from the start to a state satisfying the target test, together with that very state; with a heuristic that never overestimates, no shorter move sequence reaches a target. If that heuristic takes whole values, a target within the depth limit is always found; none is returned when no target is reachable, and the empty alg when the start is already a target.",
 ["inputs","programs"],"all finite graphs, target predicates, admissible heuristics (including fractional ones) and depth limits",
 "Tests run a dozen random cubes with the zero heuristic, others are ignored.",
 [S+"generic/search/ida.rs",S+"generic/search/mod.rs",CN+"search.rs"],
 [("search_impl, search","generic/search/ida.rs"),("Solver for Searcher","generic/search/mod.rs")],None,["Searcher::search, Solver::solve, Cube3::solve_with_heuristic"])
p("C19","Cross solving gives a real cross, and the exact solver a shortest one",
 "For any 3x3x3 and any of the six faces, both cross solvers return a move sequence and the cube it leads to, in which all four edges of that face are in place and oriented; the exact solver's sequence is as short as possible. Counting cross pieces gives the number of that face's four edges that are in place and oriented.",
 ["inputs"],"all cubes, all six faces",
 "One test solves one scramble on one face and checks the count only.",
 [C3+"cfop/cross.rs",S+"generic/search/ida.rs",CN+"pieces/edge.rs"],
 [("solve_cross, solve_cross_fast, count_cross_pieces, get_cross_pieces, is_cross_edge","cfop/cross.rs")],None,["solve_cross(cube, face)"])
p("C20","Edge distance is exact and the admissible cross heuristic never overestimates",
 "For every edge piece in every place and orientation, the stated minimum number of moves to solve it, ignoring everything else, is exactly the least number of face turns that does so. The admissible cross heuristic never exceeds the least number of turns needed for the cross, and is zero exactly when the cross is solved.",
 ["inputs"],"all 12 edges in all 24 states; all 190,080 cross states for each face",
 "A test samples ten random cubes for one of the twelve edges.",
 [CN+"pieces/edge.rs",C3+"cfop/cross.rs"],
 [("min_moves_to_solve","pieces/edge.rs"),("worse_but_admissable_cross_heuristic","cfop/cross.rs")],None,["min_moves_to_solve(pos, edge)"])
p("C21","The unfolded picture shows the physical colours of the cube",
 "For every 3x3x3 state, each of the 54 squares of the unfolded picture has the colour a physical cube in that state shows there, with the faces laid out as a folded-out net (U above F, L left and R right of it, D below, B below D) and centres fixed. The printed form shows those squares in that layout with the chosen colour scheme.",
 ["histories","inputs"],"all legal states, all squares",
 "Tests print two cubes and assert nothing.",
 [CN+"visualization/mod.rs",CN+"visualization/unfolded/mod.rs",CN+"pieces/corner.rs",CN+"pieces/edge.rs"],
 [("Colored for Corner/Edge","visualization/mod.rs"),("Unfolded::populate_with, Square::basis/indices, write","visualization/unfolded/mod.rs")],None,["Unfolded<3>, Display of Cube3"])
p("C22","The move connecting two states is found exactly when one exists",
 "Asked for the move connecting two cubes, the library returns a move that really takes the first to the second whenever a single move does, and nothing otherwise. Turning a list of states into an alg succeeds exactly when every consecutive pair is connected, and then gives back the alg that visits those states in order.",
 ["inputs","histories"],"all pairs of states; all lists of states",
 "One doc-test with one move.",
 [S+"generic/moves.rs",S+"generic/alg.rs",CN+"moves/mod.rs"],
 [("connect","generic/moves.rs"),("Alg::try_from_states","generic/alg.rs"),("AxisMove::all","moves/mod.rs")],None,["connect(), Alg::try_from_states()"])
p("C23","Faces, axes and vectors rotate consistently as rigid rotations of space",
 "Rotating faces, axes, direction vectors, moves, algs, corners and edges by any axis rotation is the same rigid rotation of space for all of them: quarter turns compose to half and full turns, clockwise seen from the positive end, inverses undo, opposite faces stay opposite and right-handedness is kept. Cross product, handedness, axis offset, next/previous, basis, and which faces contain a corner or edge agree with that geometry.",
 ["inputs"],"all faces, axes, rotations, corners and edges (finite, complete)",
 "Tests check three rotations of two faces and three cross products.",
 [CN+"space/axis.rs",CN+"space/face.rs",CN+"space/direction.rs",CN+"moves/rotation.rs",CN+"pieces/corner.rs",CN+"pieces/edge.rs"],
 [("Rotatable impls","moves/rotation.rs"),("Face::{next_around,prev_around,cross,opposite,contains_*}","space/face.rs"),("Axis::{basis,offset,next,prev,get_handedness,other}","space/axis.rs")],None,["public functions of space and rotation modules"])
p("C24","Piece sets hold each piece and place once and answer lookups consistently",
 "Building a piece set succeeds exactly when no two pieces share a place (or are identical) and reports a real duplicate otherwise. Looking up a piece by its home and a home by current place are mutually inverse, consistent with iteration order and with what moves do, and swapping two homes exchanges exactly those two pieces.",
 ["inputs","histories"],"all arrays of pieces; all reachable sets; all pairs of places",
 "No test builds an invalid set; lookups are used in one helper.",
 [S+"generic/piece/set.rs",S+"generic/piece/mod.rs"],
 [("PieceSet::{new,validate,piece_originally_at,original_position_of_piece_at,swap,iter_with_pos,is_solved}","generic/piece/set.rs")],None,["PieceSet API"])
p("C25","A wide turn can never exceed its depth limit",
 "Creating, deepening, converting, widening or parsing a wide turn succeeds exactly when its depth is within the limit of its type, and then it has that face, amount and depth unchanged; otherwise it is an error naming both, and an existing move is left unchanged. Converting to a larger limit never fails, and widening an alg fails exactly when the depth is over the limit.",
 ["inputs","histories"],"all faces, amounts, depths (full u32 range) and limits; all sequences of conversions",
 "Tests construct a few valid moves.",
 [CN+"moves/wide.rs",CN+"moves/mod.rs",CN+"parser/mod.rs",CN+"moves/extended.rs"],
 [("WideAxisMove::{new,set_depth,set_max_depth}, Alg::widen","moves/wide.rs"),("AxisMove::widen","moves/mod.rs")],[("depth","invariant: depth <= N","moves/wide.rs")],["WideAxisMove API"])
p("C26","The interactive playground applies valid lines and ignores invalid ones",
 "In the terminal playground, each line that is a valid alg is applied to the current cube and the resulting net of the cube (in its own frame, however it is held) is printed; a line that is not is answered with an error and changes nothing, so that the cube shown after any session is the one obtained from the valid lines alone. It starts from the solved cube.",
 ["histories","inputs"],"all sequences of input lines, valid, invalid and empty",
 "The binary has no tests.",
 [S+"main.rs",CN+"moves/extended.rs",CN+"parser/mod.rs",CN+"visualization/unfolded/mod.rs"],
 [("playground_3x3","main.rs")],None,["stdout/stderr of barbarosa --playground-3x3"])
p("C27","A held cube is solved, or equal to another, exactly when it should be",
 "An orientable cube is reported solved exactly when its cube shows one colour per face (identical centre pieces being interchangeable) and it is held in the default orientation; the original R and U faces back in their places. Two of them are equal exactly when their cubes are in the same state and they are held the same way, however they got there. Wrapping a cube keeps its state and holds it in the default orientation.",
 ["histories","inputs"],"all states and all 24 orientations of every size, all sequences of held moves",
 "One test looks at one scramble followed by its inverse; no test has a held cube whose identical centres are exchanged.",
 [CN+"orientable/mod.rs",CN+"orientable/orientation.rs"],
 [("Cube for Orientable (is_solved, SOLVED), PartialEq, new, From","orientable/mod.rs"),("PartialEq of Orientation","orientable/orientation.rs")],[("base_cube + orientation","state in the cube's own frame and how it is held","orientable/mod.rs")],["Orientable::is_solved, ==, new"])
p("C28","A picture of any size has every square where its coordinates say",
 "For every size N, the square of an unfolded face found at the coordinates of a sticker (outermost stickers at -1 and 1, evenly spaced, small inaccuracies allowed) is the one at that sticker's place on the folded-out net; every one of the N x N squares is found that way and a point where the next one would be, or farther, gives none. A new picture is that of the solved cube, populating it with pieces changes exactly these pieces' squares, to the colours they show. Printing shows all squares in the layout of the net, in the given colour scheme.",
 ["inputs","histories"],"all sizes N, all faces and squares, points near them; all sequences of painting, populating and reading",
 "Tests look up nine points of one face for sizes 3 and 4.",
 [CN+"visualization/unfolded/mod.rs",CN+"visualization/mod.rs"],
 [("Square::{at,at_mut,basis,indices,transform_coord,write}, Unfolded::{at_mut,populate_with,write,iter,default}","visualization/unfolded/mod.rs"),("Color::write, Colorscheme","visualization/mod.rs")],[("faces","six arrays of N x N colours","visualization/unfolded/mod.rs")],["Square::at, Unfolded::at_mut, Display"])
p("C29","Random cubes are any solvable cube, each as likely as any other",
 "A 2x2x2 or 3x3x3 drawn at random from a fair source of randomness is any cube that can be reached by turning, with the same chance for each. So every piece is found in every place with every twist or flip equally often, independently of what another piece does, odd and even permutations are equally likely, and cubes repeat no more often than chance has it.",
 ["inputs","histories"],"all solvable cubes; long runs of draws from fair random sources (seeded, streaming, the library's own)",
 "One test draws one cube and asserts nothing; how often something comes up cannot be seen in one draw.",
 [C3+"mod.rs",CN+"cube2/mod.rs",CN+"invariants.rs",S+"generic/piece/set.rs",CN+"pieces/corner.rs",CN+"pieces/edge.rs",CN+"space/axis.rs"],
 [("Distribution<Cube2>, Distribution<Cube3> for Standard","cube2/mod.rs, cube3/mod.rs"),("PieceSet::shuffle","generic/piece/set.rs"),("fix_swap_parity, fix_edge_flip_parity, fix_corner_multiplicity","invariants.rs")],None,["rand::random::<Cube3>(), rng.gen::<Cube2>()"])
p("C30","Repairing an arrangement makes it solvable and changes only what it must",
 "From any arrangement of the pieces of a 3x3x3, in whatever place, twist or flip, the three repairs (of the parity of swaps, of the flips, of the twists), in any order, lead to a cube that can be solved. Each repair changes nothing if its own law already holds, and otherwise only exchanges the first two edges, flips the last edge or twists the last corner, as documented, leaving the other laws as they were.",
 ["inputs","histories"],"all arrangements of pieces, of all twelve classes; all orders of repairs, repeated ones included",
 "No test calls the repairs; a random cube takes each of the twelve outcomes once in twelve, unseen.",
 [CN+"invariants.rs",S+"generic/piece/set.rs",CN+"pieces/corner.rs",CN+"pieces/edge.rs",C3+"mus/index/implementations.rs"],
 [("fix_swap_parity, swap_cycles","invariants.rs"),("fix_edge_flip_parity","invariants.rs"),("fix_corner_multiplicity","invariants.rs"),("PieceSet::swap","generic/piece/set.rs"),("Corner::{orientation_index,twist}, Edge::flip","pieces/corner.rs, pieces/edge.rs")],None,["the public functions of cube_n::invariants"])
p("C31","Estimates of how far a cube is from solved are what they claim to be",
 "The Manhattan estimate of a 3x3x3 is a sixteenth of the sum, over all its pieces, of the differences between the coordinates of a piece's place and its home, and a filtered sum takes exactly the pieces the filter accepts. So it is zero exactly if every piece is in its place and is never more than the quarter turns away from solved. The two estimates of a cross are half the sum, and the largest, of the least turns its four edges need alone; the zero estimate is zero.",
 ["inputs"],"all cubes and arrangements of pieces, all filters, all faces, all pairs of points",
 "No test calls the Manhattan distances, and the cross estimates are only used in searches, where a wrong one goes unseen.",
 [C3+"heuristics/manhattan.rs",C3+"heuristics/mod.rs",C3+"cfop/cross.rs",CN+"pieces/edge.rs",CN+"pieces/corner.rs"],
 [("manhattan, manhattan_filtered, piece_manhattan, vec_manhattan","heuristics/manhattan.rs"),("zero","heuristics/mod.rs"),("good_cross_heuristic, worse_but_admissable_cross_heuristic, get_cross_pieces, is_cross_edge","cfop/cross.rs"),("Coordinates","pieces/edge.rs, pieces/corner.rs")],None,["values of the public heuristic functions"])
p("C32","Threads that use the shared tables at once all get the same tables",
 "However many threads use the tables at once and however the files change meanwhile, they are loaded once, by the first call that needs them, and every answer any thread ever gets comes from that one pair of tables. A lookup that does not load gives nothing only if no thread had been answered before it was made, and each file is as it was at some moment after loading was asked for. Every call is answered.",
 ["schedules","histories","inputs"],"all interleavings of calls of any number of threads, and of changes of the files",
 "No test uses the tables from two threads, and tests that load them are ignored.",
 [C3+"mus/cache/mod.rs",C3+"mus/cache/disk_storage.rs",C3+"heuristics/mus.rs"],
 [("get, get_or_init, CACHE_LOCK","mus/cache/mod.rs"),("mus, mus_with_fallback","heuristics/mus.rs"),("load_or_build, load_partial","mus/cache/disk_storage.rs")],[("CACHE_LOCK","the shared tables, loaded once per process","mus/cache/mod.rs")],["cache::get, cache::get_or_init, heuristics::mus, mus_with_fallback, from any thread"])
p("C33","Random turns and algs favour no turn",
 "A random face, axis, direction, amount, face turn, quarter turn or wide turn is any of the possible ones with the same chance, whatever was drawn before, alone or in an unnormalized random alg; a wide turn's depth is any up to its limit. A random alg begins with any of the 45 combinations of turns about an axis and goes on with any of the 30 about the other two axes, each with the same chance whatever came before; only its last turn may be favoured, as its length cuts off what is drawn there.",
 ["inputs","histories"],"all draws from any fair source of chance, all lengths",
 "Tests check the length and normal form of single random algs; a bias shows only over many draws.",
 [CN+"moves/non_redundant.rs",CN+"moves/wide.rs",CN+"moves/amount.rs",CN+"moves/quarter.rs",CN+"moves/mod.rs",S+"generic/alg.rs",CN+"space/axis.rs",CN+"space/face.rs"],
 [("Alg::<AxisMove>::{random, random_with_rng}, NonRedundantAxisMove::{all, given_last_axis, of_axis}","moves/non_redundant.rs"),("Alg::random_unnormalized_with_rng","generic/alg.rs"),("Distribution<WideAxisMove<N>>","moves/wide.rs"),("RandGen","moves/{mod,amount,quarter}.rs, space/")],None,["random values of the turn types and random algs"])
p("C34","The named algs do what they are named for, on every size and widened",
 "Done on any cube, T exchanges the corners RUF and RUB and the edges RU and LU, J exchanges RUF and RUB, and RU and UF, U (Ua) cycles the edges RU to UB to LU, each with its top side up, and the sexy move is R U R' U'; wings move with their row, and every other corner, edge or wing stays as it is. Widened, they do to blocks of layers what they do to single layers; backwards they undo it, T and J restore a solved cube after two times, U after three and the sexy move after six, and not before.",
 ["inputs","histories"],"all cubes of the six sizes, all depths of widening",
 "Tests check only that repeating an alg restores the cube, which any other alg of the same order does too.",
 [CN+"moves/perms.rs",S+"generic/alg.rs",CN+"moves/wide.rs"],
 [("SEXY_MOVE, pll::{T, U, J}","moves/perms.rs"),("Movable<Lazy<Alg<M>>>, reversed","generic/alg.rs"),("Alg::<AxisMove>::widen","moves/wide.rs")],None,["perms::SEXY_MOVE, perms::pll"])
p("C35","A random draw is decided by its source alone",
 "Drawing a cube, an alg, a turn of any type, a face, an axis, a direction or an amount from a source of randomness, or shuffling a piece set with one, gives the same result and reads as much of the source whenever the source gives the same words: whatever was drawn before or from other sources, in whatever thread, and however many draw at once. So two sources that agree on what a draw reads of them give it the same result, and scrambles can be repeated from a seed.",
 ["inputs","histories","schedules"],"all sources, all orders and threads of drawing",
 "Tests draw from the thread's own source, where nothing can be repeated.",
 [S+"cube_n/cube2/mod.rs",C3+"mod.rs",S+"generic/piece/set.rs",CN+"moves/non_redundant.rs",CN+"moves/wide.rs",S+"generic/alg.rs",CN+"space/axis.rs",CN+"space/face.rs"],
 [("Distribution<Cube2>, Distribution<Cube3>","cube2/mod.rs, cube3/mod.rs"),("PieceSet::shuffle","generic/piece/set.rs"),("random_with_rng","moves/non_redundant.rs"),("random_unnormalized_with_rng","generic/alg.rs")],None,["draws from a source given by the caller"])
p("C36","The same question always gets the same answer",
 "Every operation that draws nothing at random and reads no stored tables (reading, printing, normalising or converting notation, turning, holding, comparing, indexing or repairing cubes, estimating, searching, drawing pictures, looking at pieces, faces and orientations) gives the same answer whenever it is given the same arguments. It does not matter what was asked before or what of it was refused, in which order or thread, how many threads ask at once, or whether it is the first thing asked in a process.",
 ["inputs","histories","schedules"],"all arguments, all orders, threads and processes of asking",
 "Tests ask each question once, in one order, and cannot tell an answer from one remembered or mixed up.",
 [S+"generic/alg.rs",S+"generic/parse.rs",CN+"parser/mod.rs",CN+"moves/perms.rs",CN+"moves/non_redundant.rs",CN+"orientable/orientation.rs",C3+"mus/index/mod.rs",C3+"cfop/cross.rs",S+"generic/search/ida.rs",CN+"pieces/edge.rs",CN+"visualization/unfolded/mod.rs",S+"generic/moves.rs"],
 [("SEXY_MOVE, pll (lazy statics)","moves/perms.rs"),("min_moves_to_solve","pieces/edge.rs"),("Alg::normalized","moves/non_redundant.rs"),("IDASearcher::search","generic/search/ida.rs")],None,["operations that draw nothing and read no tables"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch); assert x["statement"].count(". ")<=2,(x["id"]); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
