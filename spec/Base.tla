-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Machine words, bit strings, and text encodings used by the replay       *)
(* format.  TLC integers are 32-bit signed, so 32-bit words are carried as *)
(* their signed value and 64-bit words as two such limbs <<low, high>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MIN32 == -2147483647 - 1
MAX32 == 2147483647
BIG   == 1000000000              \* "unbounded" number of bits

POW2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
          32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
          8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
          536870912, 1073741824>>
Pow2(n) == POW2[n + 1]           \* n in 0..30

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* number of bits needed to write the 32-bit word x (as unsigned)
RECURSIVE BitWidthFrom(_, _)
BitWidthFrom(x, n) == IF n = 31 THEN 31 ELSE IF x < Pow2(n) THEN n ELSE BitWidthFrom(x, n + 1)
BitWidth(x) == IF x < 0 THEN 32 ELSE BitWidthFrom(x, 0)

Word(hi, lo) == IF hi >= 32768 THEN (hi - 65536) * 65536 + lo ELSE hi * 65536 + lo
Hi16(x) == IF x >= 0 THEN x \div 65536 ELSE 65535 - ((-(x + 1)) \div 65536)
Lo16(x) == IF x >= 0 THEN x % 65536 ELSE 65535 - ((-(x + 1)) % 65536)

\* unsigned comparison of 32-bit words
ULess(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0

\* `w` bits (w <= 32) at bit offset `at` of the byte string, least significant first
ByteAt(bytes, i) == IF i < Len(bytes) THEN bytes[i + 1] ELSE 0
Half(bytes, at) ==
  LET b == at \div 8  sh == at % 8
  IN ((ByteAt(bytes, b) + 256 * ByteAt(bytes, b + 1) + 65536 * ByteAt(bytes, b + 2)) \div Pow2(sh)) % 65536
BitsAt(bytes, at, w) ==
  IF w = 0 THEN 0
  ELSE IF w <= 16 THEN Half(bytes, at) % Pow2(w)
  ELSE IF w < 32 THEN Half(bytes, at) + 65536 * (Half(bytes, at + 16) % Pow2(w - 16))
  ELSE Word(Half(bytes, at + 16), Half(bytes, at))

(* ---- IEEE-754 single precision, on bit patterns ---- *)
FZero(x)  == x = 0 \/ x = MIN32
FNan(x)   == LET a == IF x < 0 THEN x - MIN32 ELSE x IN a > 2139095040    \* 0x7f800000
FNeg(x)   == x < 0 /\ x # MIN32 /\ ~FNan(x)
\* 0 < x < 1e-10 (as a single: bits 0x2EDBE6FF)
FTiny(x)  == x > 0 /\ x < 786163455
FBadTime(x) == FNeg(x) \/ FTiny(x)

(* ---- strings: ASCII text as a sequence of codes, and back ---- *)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CHR == [i \in 32..126 |-> SubSeq(ASCII, i - 31, i - 31)]
ORD == [c \in {CHR[i] : i \in 32..126} |-> CHOOSE i \in 32..126 : CHR[i] = c]
Codes(s) == [i \in 1..Len(s) |-> ORD[SubSeq(s, i, i)]]
RECURSIVE StrFrom(_, _)
StrFrom(cs, i) ==
  IF i > Len(cs) THEN ""
  ELSE (IF cs[i] \in 32..126 THEN CHR[cs[i]] ELSE "\t") \o StrFrom(cs, i + 1)
Str(cs) == StrFrom(cs, 1)        \* non-ASCII becomes a tab, which no known name contains

(* ---- windows-1252 (WHATWG) ---- *)
W1252HIGH == << 8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
                144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376 >>
Cp1252(b) == IF b \in 128..159 THEN W1252HIGH[b - 127] ELSE b
Win1252(bs) == [i \in 1..Len(bs) |-> Cp1252(bs[i])]
DropLast(s, n) == SubSeq(s, 1, Max2(Len(s) - n, 0))

(* ---- UTF-16LE with replacement of unpaired surrogates ---- *)
Units(bs) == [i \in 1..(Len(bs) \div 2) |-> bs[2*i - 1] + 256 * bs[2*i]]
RECURSIVE Utf16From(_, _)
Utf16From(us, i) ==
  IF i > Len(us) THEN <<>>
  ELSE IF us[i] \in 55296..56319 /\ i < Len(us) /\ us[i+1] \in 56320..57343
       THEN <<65536 + (us[i] - 55296) * 1024 + (us[i+1] - 56320)>> \o Utf16From(us, i + 2)
  ELSE IF us[i] \in 55296..57343 THEN <<65533>> \o Utf16From(us, i + 1)
  ELSE <<us[i]>> \o Utf16From(us, i + 1)
Utf16(bs) == Utf16From(Units(bs), 1)

(* ---- strict UTF-8: <<"ok", codes>> or <<"bad", valid prefix length>> ---- *)
IsCont(bs, i) == i <= Len(bs) /\ bs[i] \in 128..191
RECURSIVE Utf8From(_, _, _)
Utf8From(bs, i, acc) ==
  IF i > Len(bs) THEN [ok |-> TRUE, codes |-> acc, upto |-> Len(bs)]
  ELSE LET b == bs[i]
           bad == [ok |-> FALSE, codes |-> <<>>, upto |-> i - 1]
       IN IF b < 128 THEN Utf8From(bs, i + 1, Append(acc, b))
          ELSE IF b \in 194..223 THEN
               IF IsCont(bs, i+1) THEN Utf8From(bs, i + 2, Append(acc, (b - 192) * 64 + bs[i+1] - 128)) ELSE bad
          ELSE IF b \in 224..239 THEN
               IF /\ IsCont(bs, i+1) /\ IsCont(bs, i+2)
                  /\ (b = 224 => bs[i+1] >= 160) /\ (b = 237 => bs[i+1] <= 159)
               THEN Utf8From(bs, i + 3, Append(acc, (b - 224) * 4096 + (bs[i+1] - 128) * 64 + bs[i+2] - 128)) ELSE bad
          ELSE IF b \in 240..244 THEN
               IF /\ IsCont(bs, i+1) /\ IsCont(bs, i+2) /\ IsCont(bs, i+3)
                  /\ (b = 240 => bs[i+1] >= 144) /\ (b = 244 => bs[i+1] <= 143)
               THEN Utf8From(bs, i + 4, Append(acc, (b - 240) * 262144 + (bs[i+1] - 128) * 4096
                                                    + (bs[i+2] - 128) * 64 + bs[i+3] - 128)) ELSE bad
          ELSE bad
Utf8(bs) == Utf8From(bs, 1, <<>>)

(* ---- lexicographic order on code sequences ---- *)
RECURSIVE LexGEFrom(_, _, _)
LexGEFrom(a, b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] > b[i]
  ELSE LexGEFrom(a, b, i + 1)
LexGE(a, b) == LexGEFrom(a, b, 1)

RECURSIVE CatFrom(_, _)
CatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatFrom(ss, i + 1)
Cat(ss) == CatFrom(ss, 1)
=============================================================================
