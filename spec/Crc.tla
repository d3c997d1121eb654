--------------------------------- MODULE Crc ---------------------------------
(***************************************************************************)
(* The checksum of a section (CrcOps.tla) as a machine fed byte by byte.   *)
(*                                                                         *)
(* "Depends only on the bytes, not on how they are split" holds of the     *)
(* machine by construction: a byte is an atomic step and there is no other *)
(* state.  Every prefix of a behaviour is one test of the implementation.  *)
(***************************************************************************)
EXTENDS CrcOps, TLC, Json, IOUtils

ENV(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
PROFILE == ENV("PROFILE", "crc_sim")
FULL == ENV("TIER", "quick") = "thorough"
PART  == IF "PART" \in DOMAIN IOEnv THEN atoi(IOEnv.PART) ELSE 0
PARTS == IF "PARTS" \in DOMAIN IOEnv THEN atoi(IOEnv.PARTS) ELSE 1
SEED == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) ELSE 1

VARIABLE c                                     \* [data, reg, outs, pat, len, odd]
H(s, i) == LET j == i % 46301 IN (((s % 1009) * 1013) + (j * 7919) + ((j * j) % 257) + (17 * s) + (101 * (i \div 46301))) % 256
Pat(p, i) == CASE p = 0 -> 0 [] p = 1 -> 255 [] OTHER -> H(p + (50 * SEED), i)
Feed(b) == c' = [c EXCEPT !.data = Append(@, b), !.reg = CrcByte(@, b), !.outs = Append(@, CrcFinal(CrcByte(c.reg, b)))]
New(p, n) == [data |-> <<>>, reg |-> CrcInit, outs |-> <<CrcFinal(CrcInit)>>, pat |-> p, len |-> n, odd |-> FALSE]

\* a pattern in which at most one byte, anywhere, is replaced by any other value: every
\* entry of every lookup table an implementation may use, whole blocks and remainders
InitOne == c \in { New(p, n) : p \in {q \in (IF FULL THEN 0..15 ELSE 0..3) : q % PARTS = PART}, n \in {36} }
InitSim == c = New(0, -1)
\* long sections: whole chunks as one step, the checksum known after each of them
CHUNK == 256
Bytes(p, at, n) == [i \in 1..n |-> Pat(p, at + i - 1)]
FeedMany(s) == c' = [c EXCEPT !.data = @ \o s, !.reg = CrcRun(@, s), !.outs = Append(@, CrcFinal(CrcRun(c.reg, s)))]
InitLong == c \in { New(p, n) : p \in {q \in (IF FULL THEN 0..7 ELSE 0..3) : q % PARTS = PART},
                                n \in IF FULL THEN {524288 + 512} ELSE {262144 + 512} }
\* sections of many megabytes: runs of 2^k equal bytes, each one step
HUGE == IF FULL THEN <<16, 20, 22, 23, 24, 25, 26>> ELSE <<16, 20, 22, 23, 24, 25>>
TINY == {0, 1, 3, 4}
InitHuge == c \in { New(p, n) : p \in {q \in 0..3 : q % PARTS = PART}, n \in 1..3 }
FeedRun(b, k) == c' = [c EXCEPT !.data = Append(@, <<b, k>>), !.reg = CrcPow(@, b, k), !.outs = Append(@, CrcFinal(CrcPow(c.reg, b, k)))]
\* the n-th step of the behaviour is the long run
NextHuge == /\ Len(c.data) < 3
            /\ LET b == Pat(c.pat, Len(c.data) + (5 * c.len))  big == Len(c.data) = (c.len % 3) IN
               IF big THEN \E i \in 1..Len(HUGE) : FeedRun(b, HUGE[i]) ELSE \E k \in TINY : FeedRun(b, k)
Init == CASE PROFILE = "crc_sim" -> InitSim [] PROFILE = "crc_huge" -> InitHuge [] PROFILE = "crc_long" -> InitLong [] OTHER -> InitOne
Rnd(x) == RandomElement(0..1000000)
Next ==
  IF PROFILE = "crc_huge" THEN NextHuge
  ELSE IF c.len = -1 THEN \E r \in {Rnd(c)} : c' = [c EXCEPT !.len = IF r % 10 = 0 THEN (r \div 16) % 400 ELSE (r \div 16) % 70, !.pat = (r \div 7) % 4]
  ELSE /\ Len(c.data) < c.len
       /\ IF PROFILE = "crc_long" THEN FeedMany(Bytes(c.pat, Len(c.data), CHUNK))
          ELSE IF PROFILE = "crc_sim"
          THEN \E r \in {Rnd(c)} : Feed(IF c.pat = 0 /\ r % 3 = 0 THEN 0 ELSE IF c.pat = 1 /\ r % 3 = 0 THEN 255 ELSE (r \div 16) % 256)
          ELSE LET b == Pat(c.pat, Len(c.data)) IN
               \/ Feed(b)
               \/ /\ ~c.odd
                  /\ \E v \in (0..255) \ {b} :
                       c' = [c EXCEPT !.odd = TRUE, !.data = Append(@, v), !.reg = CrcByte(@, v), !.outs = Append(@, CrcFinal(CrcByte(c.reg, v)))]
Report == IF PROFILE = "crc_huge" THEN Len(c.data) < 3 \/ PrintT("CRC " \o ToJson([runs |-> c.data, cs |-> c.outs]))
          ELSE Len(c.data) # c.len \/ PrintT("CRC " \o ToJson([d |-> c.data, cs |-> c.outs, by |-> IF PROFILE = "crc_long" THEN CHUNK ELSE 1]))

\* the register is linear in the data, so the step is a CRC's whatever the implementation's tables hold
XorP(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Linear == PROFILE # "crc_huge" /\ c.odd /\ Len(c.data) > 0 =>
  LET base == [i \in 1..Len(c.data) |-> Pat(c.pat, i - 1)]
      diff == [i \in 1..Len(c.data) |-> base[i] ^^ c.data[i]]
  IN Len(c.data) # c.len \/ CrcRun(CrcInit, base) = XorP(c.reg, CrcRun(<<0, 0>>, diff))
Consistent == (PROFILE = "crc_long" \/ Len(c.outs) = Len(c.data) + 1) /\ c.outs[Len(c.outs)] = CrcFinal(c.reg)
              /\ (Len(c.data) > 0 /\ PROFILE \notin {"crc_long", "crc_huge"}) => LET b == c.data[Len(c.data)] IN CrcStep(c.reg, b) = CrcByte(c.reg, b)

ASSUME \A b \in 0..255, h \in {0, 1, 255, 256, 32768, 65535, 43690}, l \in {0, 1, 256, 65535, 21845} : CrcStep(<<h, l>>, b) = CrcByte(<<h, l>>, b)
\* the doubled maps are runs
ASSUME \A b \in {0, 1, 128, 255}, k \in {0, 1, 2, 5, 8}, r \in {CrcInit, <<0, 0>>, <<65535, 1>>} : CrcPow(r, b, k) = CrcRun(r, [i \in 1..(2 ^ k) |-> b])
\* published check values: CRC-32/MPEG-2 (same register, start all ones, no inversion)
ASSUME CrcRun(<<65535, 65535>>, <<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<886, 59111>>  \* 0x0376e6e7
=============================================================================
