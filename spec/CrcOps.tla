------------------------------- MODULE CrcOps -------------------------------
(***************************************************************************)
(* The checksum of a section: a CRC-32 register fed one byte at a time,    *)
(* most significant bit first, polynomial 0x04c11db7, a fixed start value, *)
(* inverted at the end.  The register is carried as two 16-bit halves.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

\* the start value is the complement of 0xefcbf201
CrcInit == <<4148, 3582>>                      \* 0x1034, 0x0dfe
CrcPoly == <<1217, 7607>>                      \* 0x04c1, 0x1db7
CrcBit(r) ==
  LET s == << ((r[1] * 2) % 65536) + (r[2] \div 32768), (r[2] * 2) % 65536 >>
  IN IF r[1] >= 32768 THEN <<s[1] ^^ CrcPoly[1], s[2] ^^ CrcPoly[2]>> ELSE s
CrcByte(r, b) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(<<r[1] ^^ (256 * b), r[2]>>))))))))
\* the same, a byte at a time, from a table (Crc.tla checks that it is the same)
CrcTable == [b \in 0..255 |-> CrcByte(<<0, 0>>, b)]
CrcStep(r, b) ==
  LET t == CrcTable[(r[1] \div 256) ^^ b]
  IN <<((r[1] % 256) * 256 + r[2] \div 256) ^^ t[1], ((r[2] % 256) * 256) ^^ t[2]>>
CrcFinal(r) == <<65535 - r[1], 65535 - r[2]>>
CrcRun(r, s) == FoldLeft(CrcStep, r, s)
\* The register after a run of equal bytes.  One byte is an affine map of the register; a
\* linear map is held as the images of the 32 unit registers (most significant bit first),
\* and 2^k bytes are k doublings.
CrcXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
CrcHas(r, i) == IF i <= 16 THEN (r[1] \div (2 ^ (16 - i))) % 2 = 1 ELSE (r[2] \div (2 ^ (32 - i))) % 2 = 1
CrcUnit(i) == IF i <= 16 THEN <<2 ^ (16 - i), 0>> ELSE <<0, 2 ^ (32 - i)>>
CrcLin(M, r) == FoldLeft(LAMBDA a, i : IF CrcHas(r, i) THEN CrcXor(a, M[i]) ELSE a, <<0, 0>>, [i \in 1..32 |-> i])
CrcMaps == FoldLeft(LAMBDA ms, k : Append(ms, [i \in 1..32 |-> CrcLin(ms[k], ms[k][i])]), << [i \in 1..32 |-> CrcByte(CrcUnit(i), 0)] >>, [k \in 1..27 |-> k])
\* from the zero register: what 2^k bytes b leave
CrcZero(b, k) == FoldLeft(LAMBDA v, j : CrcXor(CrcLin(CrcMaps[j], v), v), CrcByte(<<0, 0>>, b), [j \in 1..k |-> j])
CrcPow(r, b, k) == CrcXor(CrcLin(CrcMaps[k + 1], r), CrcZero(b, k))
CrcOf(s) == CrcFinal(CrcRun(CrcInit, s))
=============================================================================
