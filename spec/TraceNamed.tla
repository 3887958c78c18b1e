------------------------------ MODULE TraceNamed -------------------------------
(***************************************************************************)
(* What the named algs really do.                                          *)
(*   word name w            the turns they are                             *)
(*   does name back d pre obs  after the turns pre, the alg, or its        *)
(*                          inverse, widened by d: what is seen then       *)
(*   again name d k solved  done k times on a solved cube: is it solved?   *)
(***************************************************************************)
EXTENDS Named, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ T.e = e /\ l' = l + 1
TInit == l = 1 /\ CubeInit
TWord == Is("word") /\ UNCHANGED cube
  /\ LET c == TurnedAll(Solved, AsTurns(T.w, 0)) IN
     IF T.name = "sexy" THEN c = TurnedAll(Solved, AsTurns(Words.sexy, 0)) ELSE Does(T.name, FALSE, 0, Solved, LAMBDA i, g : c[i] = g)
TDoes == Is("does")
  /\ cube' = TurnedAll(Solved, T.pre)
  /\ IF T.name = "sexy" THEN T.obs = Observe(TurnedAll(cube', AsTurns(IF T.back THEN Backwards(Words.sexy) ELSE Words.sexy, T.d)))
     ELSE Does(T.name, T.back, T.d, cube', LAMBDA i, g : ObsT[i][g] = T.obs[i])
TAgain == Is("again") /\ UNCHANGED cube
  /\ T.solved = (T.k % Order(T.name) = 0 \/ (T.name = "U" /\ 2 * T.d + 2 >= N))
TNext == TWord \/ TDoes \/ TAgain
TSpec == TInit /\ [][TNext]_<<cube, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
