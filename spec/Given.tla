-------------------------------- MODULE Given --------------------------------
(***************************************************************************)
(* The machine as an oracle: it reads the bytes of replays that exist (the *)
(* file CASES names, one {"bytes": [...]} per line), corrupted or real,    *)
(* and says what they mean.  Every behaviour is deterministic; `t` counts  *)
(* its steps, and stands for the state in TLC's set of visited states.     *)
(***************************************************************************)
EXTENDS MC
VARIABLE t
GInit ==
  /\ t = 0
  /\ m \in { [FileMode([CFG0 EXCEPT !.src = "given", !.case = i]) EXCEPT !.lim = 8 * Len(CASES[i].bytes)] : i \in {j \in 1..Len(CASES) : j % PARTS = PART} }
GNext == Next /\ t' = t + 1
View == <<m.cfg.case, t>>
\* a decoder: one outcome, whatever the bytes
Decides == Done \/ ENABLED Next
=============================================================================
