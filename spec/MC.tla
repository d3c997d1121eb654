--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Environments and scenarios for the decoder machine in Boxcars.tla.      *)
(*                                                                         *)
(*   "sim"   random replays (TLC -simulate); every choice is derived from  *)
(*           one or two RandomElement draws                                *)
(*   "bfs"   exhaustive: a few values wherever a value decides how the     *)
(*           rest is read, a position dependent sentinel everywhere else   *)
(*   "given" bytes of existing replays, read from the file named by CASES  *)
(*                                                                         *)
(* A finished behaviour is printed as one JSON line (CASE ...): what was   *)
(* encoded, and everything the specification says about decoding it.       *)
(***************************************************************************)
EXTENDS Boxcars, CrcOps

ENV(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
PROFILE == ENV("PROFILE", "net")
CASES == IF "CASES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>
PART  == IF "PART" \in DOMAIN IOEnv THEN atoi(IOEnv.PART) ELSE 0       \* which slice of an enumeration
PARTS == IF "PARTS" \in DOMAIN IOEnv THEN atoi(IOEnv.PARTS) ELSE 1

ATTRNAMES == TABLES.attrnames
CLASSNAMES == TABLES.classnames
TAGLIST == TABLES.tags
TAGNAMES == TABLES.tagnames

(* ------------------------- pseudo-random helpers ---------------------- *)
H(s, i) == ((((s % 1000003) * 1013 + (i % 100000) * 7919 + 17) % 1000003) * 2039 + (s \div 1000003) * 31 + i) % 1000003
At(seq, h) == seq[(h % Len(seq)) + 1]
\* (a parameter keeps TLC from evaluating these once and for all)
Rnds(x) == RandomElement(0..BIG)
Rnd16(x) == RandomElement(0..65535)

Mix(w, r, q) ==
  LET k == r % 12 IN
  IF w = 0 THEN 0
  ELSE CASE k = 0 -> 0 [] k = 1 -> Pow2(w) - 1 [] k = 2 -> 1 [] k = 3 -> Pow2(w - 1) [] k = 4 -> Pow2(w - 1) - 1
         [] OTHER -> IF w <= 16 THEN (r \div 16) % Pow2(w)
                     ELSE (q % Pow2(w - 16)) * 65536 + ((r \div 16) % 65536)
Mix32(r, q) ==
  LET k == r % 16 IN
  CASE k = 0 -> 0 [] k = 1 -> -1 [] k = 2 -> 1 [] k = 3 -> MIN32 [] k = 4 -> MAX32 [] k \in 5..7 -> (r \div 16) % 1000
    [] OTHER -> Word(q, (r \div 16) % 65536)
NICEF == <<0, 1065353216, -1082130432, 1056964608, 1120403456, 1008981770, 2139095040, -8388608, 2143289344, 1, MIN32,
           2139095039, 1078530011, 1325400064>>
MixF(r, q) == IF r % 4 = 0 THEN At(NICEF, r \div 16) ELSE Word(q, (r \div 16) % 65536)
FINEF == <<1065353216, 1056964608, 1008981770, 1120403456, 786163455, 786163456, 2139095040, 2143289344, 1078530011>>
BADTIMES == <<-1082130432, 1, 786163454, -8388608, -2147483647, 8388608>>

\* a flaw now and then: `weird` is in permille
Odd(x, r) == (r \div 7919) % 1000 < x.cfg.weird

(* ------------------------------- cuts --------------------------------- *)
Bounds(x, w) ==
  LET lo == 8 * CeilDiv(Max2(x.pos, x.min), 8)
      hi == 8 * ((x.pos + w - 1) \div 8)
  IN IF lo >= x.pos + w THEN {} ELSE {lo, hi}
\* the announced number of frames must not exceed the data's bytes
Settled(x, ls) == IF x.reg = "net" THEN {l \in ls : x.net.nf <= l \div 8} ELSE ls
CutOk(x) == x.lim = BIG /\ ~x.d.exact
GenCuts(x, w) ==
  IF x.cfg.src = "sim" THEN
    (IF ~CutOk(x) THEN {}
     ELSE {l \in Settled(x, Bounds(x, w)) : \E r \in {Rnds(m)} : r % 1000 < x.cfg.cut})
  ELSE IF x.cfg.src = "bfs" /\ x.cfg.cut > 0 /\ CutOk(x) THEN
    (IF x.reg = "file" \/ (x.n.fr >= x.cfg.cutfr /\ Len(x.n.hist) >= x.cfg.cutfrom)
     THEN Settled(x, Bounds(x, w) \cup (IF w > 16 /\ x.reg = "net" THEN {l + 8 : l \in Bounds(x, w - 8)} ELSE {})) ELSE {})
  ELSE {}
GenCloses(x) ==
  IF x.lim < BIG \/ x.cfg.src = "given" THEN {x.lim}
  ELSE LET l == 8 * CeilDiv(Max2(x.pos, x.min), 8)
       IN IF x.cfg.src = "sim" THEN
            (IF \E r \in {Rnds(m)} : r % 100 < x.cfg.close /\ l \div 8 >= x.net.nf THEN {l} ELSE {BIG})
          ELSE IF x.cfg.close > 0 /\ l \div 8 >= x.net.nf THEN {BIG, l} ELSE {BIG}

(* ------------------------------ scripts ------------------------------- *)
\* an exhaustive scenario may prescribe the actor operations; hist counts what is done
NextOp(x) ==
  LET k == Len(x.n.hist) + 1 IN IF k <= Len(x.cfg.script) THEN x.cfg.script[k] ELSE <<"frame">>
Scripted(x) == x.cfg.script # <<>>

(* ----------------------------- repetition ----------------------------- *)
GenRepeats(x, level) ==
  IF x.lim < BIG \/ (level \in {"next", "back"} /\ x.cfg.src = "sim") THEN {0}
  ELSE IF level = "header" THEN (IF x.cfg.src = "sim" THEN {IF r % 1000 < x.cfg.rep THEN 1 + ((r \div 1000) % 400) ELSE 0 : r \in {Rnds(m)}}
                                 ELSE IF x.d.mark.w > 0 /\ ~\E i \in 1..Len(x.wire) : x.wire[i][1] = "*" THEN x.cfg.hrep ELSE {0})
  ELSE IF x.cfg.src = "sim" THEN
    {LET k == IF r % 1000 < x.cfg.rep THEN 1 + ((r \div 1000) % (IF r % 3 = 0 THEN 300 ELSE 3)) ELSE 0
     IN IF level = "frame" THEN Min2(k, x.net.nf - x.n.fr) ELSE k : r \in {Rnds(m)}}
  ELSE LET op == NextOp(x) IN {IF op[1] = "again" /\ op[2] = level THEN op[3] ELSE 0}

(* ----------------------------- sim values ----------------------------- *)
SimWord(x, w, r, q) == IF w = 32 THEN Mix32(r, q) ELSE IF w = 31 THEN (q % 32768) * 65536 + ((r \div 16) % 65536) ELSE Mix(w, r, q)
Tired(x) == Len(x.wire) > x.cfg.maxw
LIMITS == <<-1, MAX_LIST + 1, MIN32, MAX32, 100000, 2 * MAX_LIST, -1000>>
SIZES == <<-1, MIN32, MAX32, 1000000, -100>>
ListLen(x) == x.d.sec
SimVal(x, w, dom, r, q) ==
  CASE dom = "f32" -> MixF(r, q)
    [] dom = "b" \/ dom = "ob" -> (r \div 16) % 2
    [] dom = "sysid" -> IF Odd(x, r) THEN At(<<3, 8, 255, 9, 10>>, r) ELSE At(<<0, 1, 2, 4, 5, 6, 7, 11>>, r)
    [] dom = "loadver" -> At(<<0, 5, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 255>>, r)
    [] dom = "actor" -> At(<<-1, 0, 1, 2, 100, 300, Word(q, r % 65536), Word(q, r % 65536)>>, r)
    [] dom = "prodobj" -> IF r % 10 < 8
                          THEN At([i \in 1..5 |-> ProdId(x.net.idx, <<"color", "paint", "title", "special", "team">>[i])], r \div 16)
                          ELSE At(<<-1, 0, 1, Word(q, r % 65536)>>, r \div 16)
    [] dom = "plen" -> IF Tired(x) THEN 0 ELSE IF r % 400 = 0 THEN (r \div 400) % 256 ELSE (r \div 16) % 4
    [] dom = "pinlen" -> IF Tired(x) THEN 0 ELSE (r \div 16) % 4
    [] dom = "reschar" -> IF (r \div 16) % x.cfg.resrate = 0 THEN 0 ELSE 1 + (q % 255)
    [] dom = "more" -> IF Tired(x) THEN 0 ELSE IF r % 100 < x.cfg.more THEN 1 ELSE 0
    [] dom = "alive" -> IF r % 100 < x.cfg.del THEN 0 ELSE 1
    [] dom = "isnew" -> IF x.n.aid \notin DOMAIN x.n.actors THEN (IF Odd(x, r) THEN 0 ELSE 1)
                        ELSE IF r % 100 < x.cfg.respawn THEN 1 ELSE 0
    [] dom = "prop" -> IF DOMAIN x.n.cache.attrs = {} THEN (IF Odd(x, r) THEN 1 ELSE 0)
                       ELSE IF Tired(x) THEN 0 ELSE IF r % 100 < x.cfg.prop THEN 1 ELSE 0
    [] dom = "objid" -> IF Odd(x, r) THEN At(<<-1, Len(x.net.objs), MAX32, MIN32, q % Len(x.net.objs)>>, r)
                        ELSE At(x.cfg.spawnable, r)
    [] dom = "time" -> IF Odd(x, r) THEN At(BADTIMES, r) ELSE At(FINEF \o <<0, MIN32>>, r)
    [] dom = "delta" -> IF Odd(x, r) THEN At(BADTIMES, r)
                        ELSE IF FZero(x.n.time) /\ r % 5 # 0 THEN At(FINEF, r) ELSE At(FINEF \o <<0, MIN32>>, r)
    [] dom = "hsize" \/ dom = "csize" -> IF Odd(x, r) THEN At(SIZES, r) ELSE IF r % 3 = 0 THEN (r \div 16) % 60 ELSE EXACT
    [] dom = "major" -> x.cfg.ver[1] [] dom = "minor" -> x.cfg.ver[2] [] dom = "netv" -> x.cfg.ver[3]
    [] dom = "arrlen" -> IF Odd(x, r) THEN At(LIMITS, r) ELSE IF Tired(x) THEN 0 ELSE (r \div 16) % 3
    [] dom = "len" -> IF Odd(x, r) THEN At(LIMITS, r)
                      ELSE IF x.d.sec = "objects" THEN Len(x.cfg.objs)
                      ELSE IF x.d.sec = "net cache" THEN
                           (IF x.d.caches = <<>> THEN Len(x.cfg.caches) ELSE Len(x.cfg.caches[Len(x.d.caches)].props))
                      ELSE (r \div 16) % 4
    [] dom = "cacheobj" -> x.cfg.caches[Len(x.d.caches) + 1].ind
    [] dom = "propobj" -> LET k == Len(x.d.caches) IN x.cfg.caches[k].props[Len(x.d.caches[k].props) + 1][1]
    [] dom = "propsid" -> LET k == Len(x.d.caches) IN x.cfg.caches[k].props[Len(x.d.caches[k].props)][2]
    [] dom = "bool8" -> At(<<0, 1, 1, 2, 255>>, r) [] dom = "bool32" -> At(<<0, 1, 1, 256, 257, -1, 16777216, 2>>, r)
    [] dom = "numframes" -> IF Odd(x, r) THEN At(<<-1, MAX32, 1000, MIN32>>, r) ELSE At(<<0, 1, 2, 3, 4>>, r)
    [] dom = "maxchannels" -> At(<<1023, 1023, 255, 1, 2, 5, 300, 1024>>, r)
    [] dom = "netsize" -> IF Odd(x, r) THEN At(SIZES, r) ELSE At(<<0, 1, 4, 5, 9, 30, 60, 120, 200, 300>>, r \div 16)
    [] OTHER -> SimWord(x, w, r, q)

(* --------------------------- bounded values --------------------------- *)
TopOf(bits, max) == Max2(max - 1, Pow2(bits) - 1)      \* largest value the encoding has (bits < 31)
SimMax(x, dom, bits, max, r, q) ==
  CASE dom = "vecsize" -> At(<<0, 1, 5, 7, 10, 14, 15, 16, 17, 18, 19, max - 1, (r \div 64) % max>>, r)
    [] dom = "aid" ->
         LET known == SetToSeq(DOMAIN x.n.actors)
             any   == IF bits >= 31 THEN At(<<0, 1, 5, MAX32, (q % 32768) * 65536 + ((r \div 16) % 65536)>>, r \div 16)
                      ELSE IF r % 3 = 0 THEN Mix(Max2(bits, 1), r, q) % (TopOf(bits, max) + 1)
                      ELSE At(x.cfg.ids, r \div 16) % (TopOf(bits, max) + 1)
         IN IF known # <<>> /\ r % 100 < x.cfg.known THEN At(known, r \div 128) ELSE any
    [] dom = "sid" ->
         LET good == SetToSeq({s \in DOMAIN x.n.cache.attrs : s >= 0 /\ (bits >= 31 \/ s <= TopOf(bits, max))})
         IN IF good # <<>> /\ ~Odd(x, r) THEN At(good, r \div 16)
            ELSE IF bits >= 30 THEN r % 100000 ELSE (r \div 16) % (TopOf(bits, max) + 1)
    [] OTHER -> (r \div 16) % (TopOf(bits, max) + 1)

(* ------------------------------- texts -------------------------------- *)
NoText(sz) == [sz |-> sz, bs |-> <<>>, rep |-> 0]
Win(bs) == [sz |-> Len(bs), bs |-> bs, rep |-> 1]
Utf(bs) == [sz |-> -(Len(bs) \div 2), bs |-> bs, rep |-> 1]
Name(s) == Win(Codes(s) \o <<0>>)
WINPOOL == << <<0>>, <<65, 0>>, <<128, 159, 160, 255, 0>>, <<129, 141, 143, 144, 157, 0>>, <<65, 0, 66, 0>>, <<90>>, <<0, 0>>,
              <<226, 130, 172, 0>>, <<239, 187, 191, 65, 0>>, <<9, 10, 13, 34, 92, 127, 31, 0>> >>
UTFPOOL == << <<0, 0>>, <<65, 0, 0, 0>>, <<61, 216, 0, 222, 0, 0>>, <<61, 216, 0, 0>>, <<0, 222, 65, 0, 0, 0>>,
              <<61, 216, 61, 216, 0, 222, 0, 0>>, <<255, 254, 65, 0, 0, 0>>, <<0, 0, 65, 0, 0, 0>>, <<172, 32, 233, 0, 0, 0>>,
              <<65, 0>>, <<255, 255, 254, 255, 0, 0>>, <<61, 216>> >>
STRPOOL == << <<65, 0>>, <<0>>, <<195, 169, 0>>, <<226, 130, 172, 0>>, <<240, 159, 154, 128, 0>>, <<65, 0, 66, 0>>, <<239, 187, 191, 65, 0>> >>
BADSTR == << <<255, 0>>, <<195, 0>>, <<65, 195, 65, 0>>, <<237, 160, 128, 0>>, <<192, 128, 0>>, <<224, 128, 128, 0>>, <<244, 144, 128, 128, 0>>,
             <<240, 128, 128, 128, 0>>, <<65, 226, 130, 0>>, <<128, 0>> >>
Rand(k, r, q) == [i \in 1..k |-> H(r + q, i) % 256]
SimText(x, kind, dom, r, q) ==
  LET k == (r \div 64) % 12
      asc == [i \in 1..k |-> 32 + (H(r + q, i) % 95)] \o <<0>>
  IN CASE dom = "gtype" /\ r % 2 = 0 -> Name("TAGame.Replay_Soccar_TA")
       [] dom = "ftext" /\ x.d.sec = "objects" -> Name(x.cfg.objs[Len(x.d.objs) + 1])
       [] kind = "text" \/ kind = "net" ->
            IF Odd(x, r) THEN NoText(IF kind = "net" THEN At(<<1025, -513, MIN32, MAX32, 100000, -1073741824, 2000>>, r)
                                     ELSE At(<<10001, -10001, MIN32, MAX32, 100000>>, r))
            ELSE CASE r % 8 \in {0, 1} -> Win(asc)
                   [] r % 8 = 2 -> Win(Rand(k, r, q) \o <<0>>)
                   [] r % 8 = 3 -> Win(At(WINPOOL, r \div 64))
                   [] r % 8 = 4 -> Utf(At(UTFPOOL, r \div 64))
                   [] r % 8 = 5 -> Utf(Rand(2 * k, r, q) \o <<0, 0>>)
                   [] r % 8 = 6 -> NoText(0)
                   [] OTHER -> IF r % 16 = 7 THEN Utf([i \in 1..(2 * k) |-> IF i % 2 = 0 THEN 216 + (H(r, i) % 8) ELSE H(q, i) % 256] \o <<0, 0>>)
                               ELSE Win(Rand(k * 5, r, q) \o <<7>>)
       [] dom = "key" -> IF Tired(x) \/ r % 100 < x.cfg.endmap THEN Name("None")
                         ELSE IF r % 3 = 0 THEN Name(At(<<"NumFrames", "MaxChannels", "MatchType", "BuildVersion", "None", "none">>, r \div 64))
                         ELSE IF r % 3 = 1 THEN Win(At(STRPOOL, r \div 64))
                         ELSE IF Odd(x, r) THEN Win(At(BADSTR, r)) ELSE Win(asc)
       [] dom = "kind" -> IF Odd(x, r) THEN (IF r % 2 = 0 THEN Win(At(BADSTR, r)) ELSE
                                             Name(At(<<"BoolProp", "None", "IntProperty ", "intProperty", "ObjectProperty", "">>, r \div 64)))
                          ELSE IF x.s \in LOOKUPS /\ r % 10 # 0 THEN
                               (IF x.s \in {K_NUMFRAMES, K_MAXCHANNELS} THEN Name("IntProperty")
                                ELSE Name(At(<<"StrProperty", "NameProperty">>, r \div 64)))
                          ELSE Name(At(<<"BoolProperty", "ByteProperty", "ArrayProperty", "FloatProperty", "IntProperty", "QWordProperty",
                                         "NameProperty", "StrProperty", "StructProperty">>, r \div 64))
       [] dom = "bytekind" /\ r % 3 = 0 -> Name("None")
       [] OTHER -> IF Odd(x, r) THEN (IF r % 2 = 0 THEN Win(At(BADSTR, r)) ELSE NoText(At(SIZES, r)))
                   ELSE IF r % 2 = 0 THEN Win(At(STRPOOL, r \div 64)) ELSE IF r % 7 = 0 THEN NoText(0) ELSE Win(asc)

(* ----------------------------- bfs values ----------------------------- *)
Fill(x, w) ==
  LET a == H(x.pos + 977 * x.cfg.salt, w)
      b == H(x.pos + 977 * x.cfg.salt, w + 100)
      v == IF w = 32 THEN Word(a % 65536, b % 65536)
           ELSE IF w > 16 THEN (a % Pow2(w - 16)) * 65536 + (b % 65536) ELSE a % Pow2(w)
  IN CASE x.cfg.fill = 0 -> v
       [] x.cfg.fill = 1 -> (IF w = 32 THEN -1 - v ELSE IF w = 31 THEN MAX32 - v ELSE Pow2(w) - 1 - v)
       [] x.cfg.fill = 2 -> 0
       [] OTHER -> (IF w = 32 THEN -1 ELSE IF w = 31 THEN MAX32 ELSE Pow2(w) - 1)
\* a single value for each field that decides how the rest is read
LeanVals(x, w, dom) ==
  CASE dom = "loadver" -> {22} [] dom = "sysid" -> {At(<<1, 2, 6, 7>>, x.pos + x.cfg.salt)}
    [] dom = "plen" -> {1} [] dom = "pinlen" -> {1}
    [] dom = "prodobj" -> {ProdId(x.net.idx, At(<<"color", "paint", "title", "special", "team">>, x.pos))} [] dom = "reschar" -> {IF Len(x.s) < 2 THEN 65 ELSE 0}
    [] OTHER -> {Fill(x, w)}
\* products after the first are not enumerated again
Lean(x) == x.cfg.lean \/ \E i \in 1..(Len(x.out) - 6) : x.out[i] = <<"k", "object_ind">>
LEANDOMS == {"ob", "loadver", "sysid", "plen", "pinlen", "prodobj", "reschar", "u24"}
BfsVals(x, w, dom) ==
  LET op == NextOp(x) IN
  IF dom \in LEANDOMS /\ Lean(x) THEN LeanVals(x, w, dom) ELSE
  CASE dom = "ob" -> {0, 1}
    [] dom = "loadver" -> {0, 10, 11, 15, 16, 17, 18, 19, 21, 22, 255}
    [] dom = "sysid" -> {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 255}
    [] dom = "u24" -> IF x.cfg.fill = 0 THEN {0, Fill(x, w)} ELSE {Fill(x, w)}
    [] dom = "prodobj" -> {ProdId(x.net.idx, "color"), ProdId(x.net.idx, "paint"), ProdId(x.net.idx, "title"),
                           ProdId(x.net.idx, "special"), ProdId(x.net.idx, "team"), 0, -1}
    [] dom = "plen" -> IF Len(x.wire) > x.cfg.maxw THEN {0} ELSE {0, 1, 2}
    [] dom = "pinlen" -> IF Len(x.wire) > x.cfg.maxw THEN {0} ELSE {0, 1}
    [] dom = "reschar" -> IF Len(x.s) < 2 THEN {0, 65, 200} ELSE IF Len(x.s) = 2 /\ x.s[2] = 65 THEN {0} ELSE {65 + (Len(x.s) % 3)}
    [] dom = "more" -> IF Scripted(x) THEN {IF op[1] = "frame" THEN 0 ELSE 1}
                       ELSE IF Len(x.n.hist) >= x.cfg.ops \/ x.n.visits >= x.cfg.ops THEN {0} ELSE {0, 1}
    [] dom = "alive" -> IF Scripted(x) THEN {IF op[1] = "del" THEN 0 ELSE 1} ELSE {0, 1}
    [] dom = "isnew" -> IF Scripted(x) THEN {IF op[1] = "new" THEN 1 ELSE 0} ELSE {0, 1}
    [] dom = "prop" -> IF Scripted(x) THEN {IF op[1] = "upd" /\ op[2] = x.n.aid THEN 1 ELSE 0}
                       ELSE IF Len(x.n.hist) >= x.cfg.ops THEN {0} ELSE {0, 1}
    [] dom = "objid" -> IF Scripted(x) THEN {op[3]} ELSE {x.cfg.spawnable[i] : i \in 1..Len(x.cfg.spawnable)}
    [] dom = "time" -> IF x.cfg.times = <<>> THEN {1065353216 + x.n.fr} ELSE {x.cfg.times[i] : i \in 1..Len(x.cfg.times)}
    [] dom = "delta" -> IF x.cfg.times = <<>> THEN {1008981770 + x.n.fr} ELSE {x.cfg.times[i] : i \in 1..Len(x.cfg.times)}
    [] dom = "hsize" -> x.cfg.hsizes [] dom = "csize" -> x.cfg.csizes
    [] dom = "major" -> {x.cfg.ver[1]} [] dom = "minor" -> {x.cfg.ver[2]} [] dom = "netv" -> {x.cfg.ver[3]}
    [] dom = "arrlen" -> x.cfg.arrlens
    [] dom = "len" -> IF x.d.sec = x.cfg.bigsec THEN x.cfg.biglens
                      ELSE IF x.d.sec = "objects" THEN {Len(x.cfg.objs)}
                      ELSE IF x.d.sec = "net cache" THEN
                           (IF x.d.caches = <<>> THEN {Len(x.cfg.caches)} ELSE {Len(x.cfg.caches[Len(x.d.caches)].props)})
                      ELSE x.cfg.lens
    [] dom = "cacheobj" -> IF x.cfg.bigsec = "net cache" THEN {0} ELSE {x.cfg.caches[Len(x.d.caches) + 1].ind}
    [] dom = "propobj" -> IF x.cfg.bigsec = "net cache" THEN {0} ELSE LET k == Len(x.d.caches) IN {x.cfg.caches[k].props[Len(x.d.caches[k].props) + 1][1]}
    [] dom = "propsid" -> IF x.cfg.bigsec = "net cache" THEN {0} ELSE LET k == Len(x.d.caches) IN {x.cfg.caches[k].props[Len(x.d.caches[k].props)][2]}
    [] dom = "bool8" -> {0, 1, 2, 255} [] dom = "bool32" -> {0, 1, 257, 256, -1}
    [] dom = "actor" -> {At(<<-1, 0, 1, 300, 65536, MAX32, MIN32>>, x.pos + x.cfg.salt)}
    [] dom = "numframes" -> {x.cfg.nf} [] dom = "maxchannels" -> {x.cfg.maxch}
    [] dom = "netsize" -> x.cfg.netsizes
    [] OTHER -> {Fill(x, w)}
BfsMax(x, dom, bits, max) ==
  CASE dom = "vecsize" -> IF x.cfg.lean THEN {At(<<3, 9, 14, 19, max - 1>>, x.pos + x.cfg.salt)} ELSE IF x.cfg.fill = 0 THEN {0, 4, 13, 15, 16, max - 1} ELSE {7, max - 1}
    [] dom = "aid" -> IF Scripted(x) THEN {NextOp(x)[2]}
                      ELSE {i \in x.cfg.idset : bits >= 31 \/ i <= TopOf(bits, max)}
    [] dom = "sid" -> IF Scripted(x) THEN {NextOp(x)[3]}
                      ELSE {s \in x.cfg.sidset : bits >= 31 \/ s <= TopOf(bits, max)}
    [] OTHER -> 0..TopOf(bits, max)
BfsText(x, kind, dom) ==
  CASE dom = "nettext" -> IF x.cfg.ntexts # {} THEN x.cfg.ntexts ELSE IF x.cfg.bigtext THEN
           { [sz |-> 1024, bs |-> <<200>>, rep |-> 1024], [sz |-> -512, bs |-> <<17, 4>>, rep |-> 512],
             NoText(1025), NoText(-513), NoText(MIN32), NoText(MAX32), NoText(-1073741824), NoText(1073741824) }
         ELSE IF x.cfg.lean THEN {Win(<<97 + (x.pos % 26), 200, 0>>)}
         ELSE IF x.cfg.fill = 0 THEN {NoText(0)} \cup {Win(WINPOOL[i]) : i \in 1..6} \cup {Utf(UTFPOOL[i]) : i \in 1..4}
         ELSE {NoText(0), Win(WINPOOL[3]), Utf(UTFPOOL[5])}
    [] dom = "ftext" /\ x.d.sec = "objects" /\ x.cfg.bigsec # "objects" -> {Name(x.cfg.objs[Len(x.d.objs) + 1])}
    [] kind = "text" -> x.cfg.texts
    [] dom = "key" /\ x.cfg.xkeys # {} /\ Len(x.wire) < x.cfg.maxw -> x.cfg.xkeys
    [] dom = "key" -> IF Len(x.cfg.keys) > 0 /\ Len(x.wire) < x.cfg.maxw THEN {Name(x.cfg.keys[i]) : i \in 1..Len(x.cfg.keys)} \cup (IF x.cfg.force THEN {} ELSE {Name("None")}) ELSE {Name("None")}
    [] dom = "kind" -> x.cfg.kinds
    [] OTHER -> x.cfg.strs

(* ------------------------------- given -------------------------------- *)
Bytes(x) == CASES[x.cfg.case].bytes
\* k bytes at a bit offset
GivenBytes(x, at, k) ==
  IF at % 8 = 0 THEN SubSeq(Bytes(x), at \div 8 + 1, at \div 8 + k)
  ELSE SubSeq([i \in 1..k |-> BitsAt(Bytes(x), at + 8 * (i - 1), 8)], 1, k)
GivenText(x, kind) ==
  LET sz == BitsAt(Bytes(x), x.base + x.pos, 32)
      lim == IF kind = "net" THEN MAX_NETTEXT ELSE IF kind = "text" THEN 2 * MAX_TEXT ELSE MAX_GEN_SIZE
      u  == IF sz = MIN32 \/ sz < -MAX_GEN_SIZE THEN MAX_GEN_SIZE ELSE IF kind = "str" THEN sz ELSE UnitBytes(sz)
  IN IF u < 0 \/ u > lim \/ u * 8 > x.lim - x.pos - 32
     THEN (IF kind = "str" \/ u < 0 \/ u > lim THEN NoText(sz) ELSE [sz |-> sz, bs |-> [i \in 1..u |-> 0], rep |-> 1])
     ELSE [sz |-> sz, bs |-> GivenBytes(x, x.base + x.pos + 32, u), rep |-> 1]
GivenMax(x, bits, max) ==
  LET d == BitsAt(Bytes(x), x.base + x.pos, Min2(bits, 31))
      e == BitsAt(Bytes(x), x.base + x.pos + Min2(bits, 31), 1)
  IN IF bits >= 31 THEN (IF ULess(d + MIN32, max) /\ e = 1 THEN d + MIN32 ELSE d)
     ELSE IF d + Pow2(bits) < max /\ e = 1 THEN d + Pow2(bits) ELSE d

\* the stored checksum, and whether it is that of the section that follows
GivenCrc(x) ==
  LET stored == BitsAt(Bytes(x), x.pos, 32)
      at == (x.pos + 32) \div 8
      n  == x.d.hs
      r  == CrcOf(SubSeq(Bytes(x), at + 1, at + n))
  IN [good |-> n < 0 \/ n > Len(Bytes(x)) - at \/ Word(r[1], r[2]) = stored, v |-> stored]

(* ------------------- the environment offered to TLC ------------------- *)
GenVals(x, w, dom) ==
  IF x.cfg.src = "given" THEN {BitsAt(Bytes(x), x.base + x.pos, w)}
  ELSE IF x.cfg.src = "sim" THEN {SimVal(x, w, dom, r, q) : r \in {Rnds(m)}, q \in {Rnd16(m)}}
  ELSE BfsVals(x, w, dom)
GenMaxVals(x, dom, bits, max) ==
  IF x.cfg.src = "given" THEN {GivenMax(x, bits, max)}
  ELSE IF x.cfg.src = "sim" THEN {SimMax(x, dom, bits, max, r, q) : r \in {Rnds(m)}, q \in {Rnd16(m)}}
  ELSE BfsMax(x, dom, bits, max)
PS4NAMES == { [i \in 1..16 |-> 0], [i \in 1..16 |-> 64 + i], [i \in 1..16 |-> IF i = 5 THEN 0 ELSE 120 + i], [i \in 1..16 |-> IF i > 3 THEN 0 ELSE 225 + i] }
GenByteVals(x, k, dom) ==
  IF x.cfg.src = "given" THEN {GivenBytes(x, x.base + x.pos, k)}
  ELSE IF x.cfg.src = "sim" THEN
    {IF dom = "ps4name" THEN [i \in 1..k |-> IF i > (r \div 16) % 20 THEN 0 ELSE 1 + (H(q, i) % 255)] ELSE Rand(k, r, q) : r \in {Rnds(m)}, q \in {Rnd16(m)}}
  ELSE IF dom = "ps4name" /\ ~x.cfg.lean THEN PS4NAMES ELSE {[i \in 1..k |-> H(x.pos, i) % 256]}
GenTextVals(x, kind, dom) ==
  IF x.cfg.src = "given" THEN {GivenText(x, kind)}
  ELSE IF x.cfg.src = "sim" THEN {SimText(x, kind, dom, r, q) : r \in {Rnds(m)}, q \in {Rnd16(m)}}
  ELSE BfsText(x, kind, dom)
GenCrcVals(x, which) ==
  IF x.cfg.src = "given" THEN {GivenCrc(x)}
  ELSE IF x.cfg.src = "sim" THEN {[good |-> r % 100 >= x.cfg.badcrc, v |-> 0] : r \in {Rnds(m)}}
  ELSE {[good |-> g, v |-> 0] : g \in x.cfg.crcs}

(* ----------------------------- scenarios ------------------------------ *)
CFG0 == [src |-> "bfs", prof |-> PROFILE, case |-> 0, ver |-> <<868, 32, 10>>, props |-> <<>>, objs |-> <<>>, caches |-> <<>>,
         spawnable |-> <<0>>, weird |-> 0, cut |-> 0, cutfr |-> 0, cutfrom |-> 0, close |-> 0, maxw |-> 300, script |-> <<>>, salt |-> 1, fill |-> 0,
         ops |-> 0, times |-> <<>>, idset |-> {0}, sidset |-> {0}, bigtext |-> FALSE, nf |-> 1, maxch |-> 1023, ids |-> <<0>>,
         more |-> 60, del |-> 15, respawn |-> 15, prop |-> 60, known |-> 60, resrate |-> 6, badcrc |-> 15, endmap |-> 25,
         hsizes |-> {EXACT}, csizes |-> {EXACT}, arrlens |-> {0, 1}, lens |-> {0, 1}, bigsec |-> "-", biglens |-> {0}, netsizes |-> {0},
         texts |-> {Win(<<65, 0>>)}, ntexts |-> {}, keys |-> <<>>, xkeys |-> {}, kinds |-> {Name("IntProperty")}, strs |-> {Win(<<65, 0>>)}, crcs |-> {TRUE},
         label |-> "", lim0 |-> BIG, tag |-> "", badprop |-> FALSE, force |-> FALSE, rep |-> 0, hrep |-> {0}, lean |-> FALSE, vast |-> FALSE, nfweird |-> FALSE, seed |-> 0]

P(k, t, v) == [k |-> Codes(k), t |-> t, v |-> v]
RECURSIVE LookFrom(_, _, _)
LookFrom(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE LookFrom(ps, i + 1,
         IF ps[i].k \in DOMAIN acc \/ ps[i].k \notin LOOKUPS THEN acc
         ELSE [k \in DOMAIN acc \cup {ps[i].k} |-> IF k = ps[i].k THEN (IF ps[i].t \in {"Int", "Str", "Name"} THEN <<ps[i].t, ps[i].v>> ELSE <<"Other">>) ELSE acc[k]])
LookOf(ps) == LookFrom(ps, 1, NoFn)
NormVer(v) == <<v[1], v[2], IF v[1] > 865 /\ v[2] > 17 THEN v[3] ELSE 0>>
NetOnly(c) == NetStart(Start(c), NormVer(c.ver), LookOf(c.props), c.objs, c.caches, c.lim0)
FileMode(c) == [Start(c) EXCEPT !.stk = FILE]

RECURSIVE Names(_)
Names(c) == <<c>> \o (IF ParentOf(c) = "" THEN <<>> ELSE Names(ParentOf(c)))
RECURSIVE Filt(_, _, _, _)
Filt(seq, s, i, pct) == IF i > Len(seq) THEN <<>> ELSE (IF H(s, 900 + i) % 100 < pct THEN <<seq[i]>> ELSE <<>>) \o Filt(seq, s, i + 1, pct)
Shuffle(seq, s) ==
  LET keyed == SortSeq([i \in 1..Len(seq) |-> <<H(s, 500 + i), i>>], LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
  IN [i \in 1..Len(seq) |-> seq[keyed[i][2]]]
PosOf(objs, n, h) ==
  LET ps == SetToSeq({i \in 1..Len(objs) : objs[i] = n}) IN IF Len(ps) = 1 \/ h % 4 # 0 THEN ps[1] - 1 ELSE At(ps, h \div 4) - 1

VERS == << <<868, 32, 10>>, <<868, 32, 9>>, <<868, 24, 10>>, <<868, 23, 8>>, <<868, 23, 7>>, <<868, 22, 7>>, <<868, 20, 10>>, <<868, 20, 7>>,
           <<868, 20, 6>>, <<868, 20, 1>>, <<868, 20, 0>>, <<868, 19, 7>>, <<868, 18, 7>>, <<868, 18, 0>>, <<868, 17, 0>>, <<868, 14, 0>>,
           <<868, 13, 0>>, <<868, 12, 0>>, <<868, 11, 0>>, <<867, 32, 10>>, <<867, 12, 0>>, <<869, 0, 0>>, <<869, 18, 5>>, <<866, 18, 7>>,
           <<866, 17, 0>>, <<865, 32, 0>>, <<0, 0, 0>>, <<868, 18, -1>>, <<868, 24, 9>>, <<900, 5, 0>> >>
BUILDS == << Codes("221120.42953.406184"), Codes("221120.42953.406183"), Codes("221120.42953.40618"), Codes("221120.42953.4061840"),
             Codes("230101.1.1"), Codes("22"), Codes("3"), Codes("221119.99999.999999"), <<>>, Codes("210101.55555.300000") >>
PRODNAMES == <<PRODUCTS.color, PRODUCTS.paint, PRODUCTS.title, PRODUCTS.special, PRODUCTS.team>>
INSTNAMES == << "stadium_foggy_p.TheWorld:PersistentLevel.VehiclePickup_Boost_TA_30", "TheWorld:PersistentLevel.CrowdActor_TA_0",
                "x.TheWorld:PersistentLevel.CrowdManager_TA_1", "UtopiaStadium_P.TheWorld:PersistentLevel.InMapScoreboard_TA_0",
                "TheWorld:PersistentLevel.BreakOutActor_Platform_TA_53", "eurostad.TheWorld:PersistentLevel.PlayerStart_Platform_TA_12",
                "TheWorld:PersistentLevel.CrowdActor_TA", "a.b.TheWorld:PersistentLevel.CrowdActor_TA_3",
                "stadium.TheWorld:PersistentLevel.Unknown_TA_1", "TheWorld:PersistentLevel.VehiclePickup_Boost_TA",
                "xTheWorld:PersistentLevel.CrowdActor_TA_1", "a.TheWorld:PersistentLevel.xCrowdActor_TA_1" >>
ROOTY == <<"Core.Object", "TAGame.Unknown_TA", "Engine.Actor", "TAGame.Car_TA", "Archetypes.Car.Car_Default", "TAGame.PRI_TA">>

\* a random replay's static part
SidAt(h) == LET k == h % 16 IN
  CASE k < 9 -> (h \div 16) % 6 [] k < 12 -> 6 + ((h \div 16) % 60) [] k = 12 -> 62 + ((h \div 16) % 4) [] k = 13 -> At(<<127, 128, 200, 300, 1000>>, h \div 16)
    [] k = 14 -> At(<<0, 1, 2, 3>>, h \div 16) [] OTHER -> At(<<-1, 65535, 5, MAX32, 6, 7, 8, 70000, 9, 10>>, h \div 16)
Static(s, c) ==
  LET pick(i) == LET h == H(s, i) IN IF h % 7 = 0 THEN At(INSTNAMES, h \div 7) ELSE IF h % 7 = 1 THEN At(ROOTY, h \div 7) ELSE At(CLASSNAMES, h \div 7)
      c1 == Names(pick(1))
      c2 == Names(pick(2))
      kept == <<c1[1]>> \o Filt(c1, s, 2, 70) \o Filt(c2, s + 1, 1, 70)
      na == 2 + (H(s, 3) % 7)
      attrs == [i \in 1..na |-> LET h == H(s, 20 + i) IN
                  IF h % 25 = 0 THEN At(<<"Engine.Actor:Unknown", "TAGame.X:Y">>, h \div 25)
                  ELSE At(TAGNAMES[IF c.tag # "" /\ i = 1 THEN c.tag ELSE At(TAGLIST, h \div 25)], H(s, 60 + i))]
      prods == IF H(s, 4) % 3 = 0 THEN <<>> ELSE Filt(PRODNAMES, s + 2, 1, 85)
      base == Shuffle(kept \o attrs \o prods, s)
      objs == IF H(s, 5) % 3 = 0 THEN Append(base, At(base, H(s, 6))) ELSE base
      nc == Len(kept)
      cs == [i \in 1..nc |->
               [ind |-> PosOf(objs, kept[i], H(s, 200 + i)),
                props |-> [j \in 1..(H(s, 300 + i) % 4) |->
                             <<IF c.badprop /\ i = 1 /\ j = 1 THEN At(<<-1, Len(objs), MAX32>>, H(s, 7)) ELSE PosOf(objs, At(attrs, H(s, 330 + 10 * i + j)), H(s, 7 + i)),
                               SidAt(H(s, 360 + 10 * i + j))>>]]]
      caches == Shuffle(Filt(cs, s + 3, 1, 85), s + 4)
      withAttrs == [objs |-> objs, caches |-> caches]
      idx == Index(objs)
      sp == SelectSeq([i \in 1..Len(objs) |-> i - 1], LAMBDA i : HasCache(objs, idx, i))
      rich == SelectSeq(sp, LAMBDA i : Inherit(caches, Chain(idx, objs[i + 1]), 1) # NoFn)
  IN [objs |-> objs, caches |-> caches, spawnable |-> IF rich # <<>> THEN rich ELSE IF sp # <<>> THEN sp ELSE <<0>>]

IDSETS == << <<0, 1, 2>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<198, 199, 200, 201>>, <<0, 199, 200, 255, 256, 1022>>, <<5, 300, 301>>, <<1022, 1023, 1021>>, <<0>> >>
MAXCH == << 1023, 1023, 1023, 2047, 255, 256, 1, 2, 3, 5, 0, 300, 200, 65535, 1000000, MAX32 >>
SimProps(s, c) ==
  LET nf == IF c.nfweird /\ H(s, 40) % 4 = 0 THEN <<>> ELSE <<P("NumFrames", "Int", c.nf)>>
      mc == IF H(s, 41) % 4 = 0 THEN <<>> ELSE <<P("MaxChannels", IF c.nfweird /\ H(s, 47) % 10 = 0 THEN "Str" ELSE "Int", IF c.nfweird /\ H(s, 47) % 10 = 0 THEN Codes("7") ELSE c.maxch)>>
      mt == IF H(s, 42) % 2 = 0 THEN <<>> ELSE <<P("MatchType", IF H(s, 43) % 2 = 0 THEN "Name" ELSE "Str", Codes(At(<<"Lan", "Online", "lan", "Lan ">>, H(s, 44))))>>
      bv == IF H(s, 45) % 2 = 0 THEN <<>> ELSE <<P("BuildVersion", IF H(s, 49) % 4 = 0 THEN "Name" ELSE "Str", At(BUILDS, H(s, 46)))>>
      dup == IF H(s, 48) % 6 # 0 THEN <<>> ELSE <<P("NumFrames", "Int", 7), P("MaxChannels", "Int", 3), P("MatchType", "Str", Codes("Lan")), P("BuildVersion", "Str", Codes("9"))>>
  IN Shuffle(nf \o mc \o mt \o bv, s + 5) \o dup

SimVer(s) == IF H(s, 8) % 4 = 0 THEN <<866 + (H(s, 9) % 4), H(s, 10) % 34, H(s, 11) % 12>> ELSE At(VERS, H(s, 12))
\* profile knobs
SimCfg(s, q) ==
  LET c0 == [CFG0 EXCEPT !.src = "sim"]
      c1 == [c0 EXCEPT !.ver = SimVer(s), !.nf = 1 + (H(s, 13) % 5), !.maxch = At(MAXCH, H(s, 14)), !.ids = At(IDSETS, H(s, 15)),
                       !.resrate = IF H(s, 16) % 12 = 0 THEN 400 ELSE 6]
      c2 == CASE PROFILE = "attr" -> [c1 EXCEPT !.tag = At(TAGLIST, H(s, 17)), !.prop = 85, !.more = 55, !.del = 3, !.respawn = 5, !.known = 80, !.nf = 1 + (H(s, 13) % 2), !.maxw = 150]
              [] PROFILE = "attrcut" -> [c1 EXCEPT !.tag = At(TAGLIST, H(s, 17)), !.prop = 85, !.more = 60, !.del = 3, !.known = 80, !.nf = 1 + (H(s, 13) % 2), !.cut = 6, !.weird = 10, !.close = 20, !.maxw = 150]
              [] PROFILE = "life" -> [c1 EXCEPT !.prop = 35, !.more = 92, !.del = 25, !.respawn = 35, !.nf = 2 + (H(s, 13) % 6), !.rep = At(<<0, 10, 30>>, H(s, 26)), !.maxw = 200 + (H(s, 18) % 3) * 150,
                                                !.weird = IF H(s, 18) % 4 = 0 THEN 15 ELSE 0]
              [] PROFILE = "net" -> [c1 EXCEPT !.weird = At(<<0, 0, 10, 40>>, H(s, 18)), !.cut = At(<<0, 0, 0, 8>>, H(s, 19)), !.close = At(<<0, 0, 30>>, H(s, 20)),
                                               !.badprop = (H(s, 22) % 30 = 0), !.nfweird = TRUE,
                                               !.rep = At(<<0, 0, 15>>, H(s, 26)), !.nf = At(<<0, 1, 2, 3, 4, 5, 3, 2>>, H(s, 21))]
              [] PROFILE = "frames" -> [c1 EXCEPT !.weird = At(<<0, 20, 60>>, H(s, 18)), !.cut = At(<<0, 30>>, H(s, 19)), !.close = At(<<0, 30>>, H(s, 20)), !.more = 30, !.nfweird = TRUE,
                                                  !.nf = At(<<0, 1, 3, 6, 10, 20, -1, MAX32, 1000, 15, 90, 99>>, H(s, 21)), !.rep = At(<<0, 20, 200>>, H(s, 26)), !.maxw = 120]
              [] PROFILE = "file" -> [c1 EXCEPT !.weird = At(<<0, 0, 0, 10, 40>>, H(s, 18)), !.cut = At(<<0, 0, 15>>, H(s, 19)), !.close = 0, !.rep = At(<<0, 0, 30>>, H(s, 26)), !.maxw = 60 + (H(s, 22) % 4) * 60, !.endmap = At(<<10, 25>>, H(s, 23))]
              [] OTHER -> c1
      \* an absurd frame count: the data is settled beforehand, some below and some above the count
      c3 == [c2 EXCEPT !.seed = s, !.lim0 = IF c2.nf > 5000 THEN 8 * (H(s, 24) % 40) ELSE IF c2.nf > 100 THEN 8 * (c2.nf - 2 + (H(s, 24) % 4)) ELSE BIG]
      st == Static(s, c3)
  IN [c3 EXCEPT !.objs = st.objs, !.caches = st.caches, !.spawnable = st.spawnable, !.props = SimProps(s, c3)]
SimStart(s, q) == LET c == SimCfg(s, q) IN IF PROFILE = "file" THEN FileMode(c) ELSE NetOnly(c)

Boot == [Start(CFG0) EXCEPT !.stk = << <<"boot">> >>]
InitSim == m = Boot
MCNext ==
  IF m.stk # <<>> /\ m.stk[1][1] = "boot"
  THEN \E s \in {Rnds(m)} : \E q \in {Rnd16(m)} : m' = SimStart(s, q)
  ELSE Next

(* ----------------------------- reporting ------------------------------ *)
Flat(c) == [prof |-> c.prof, ver |-> c.ver, props |-> c.props, objs |-> c.objs, caches |-> c.caches, label |-> c.label]
CaseOf(x) ==
  LET net == x.reg = "net" IN
  [cfg |-> Flat(x.cfg), file |-> x.fwire # <<>> \/ ~net \/ Given(x), reg |-> x.reg,
   given |-> IF Given(x) THEN x.cfg.case ELSE 0, netat |-> x.d.netpos \div 8, netlen |-> x.d.netlen, skip |-> x.d.skip,
   fwire |-> IF net THEN x.fwire ELSE x.wire, wire |-> IF net THEN x.wire ELSE <<>>,
   fout |-> IF net THEN x.fout ELSE x.out, pos |-> x.pos, lim |-> x.lim, min |-> x.min,
   flim |-> IF net THEN x.flim ELSE x.lim, fmin |-> IF net THEN x.fmin ELSE x.min, hend |-> x.d.hend,
   frames |-> x.n.frames, nfr |-> x.n.fr, nres |-> x.nres, err |-> x.err, stage |-> x.stage,
   hgood |-> x.d.hgood, bgood |-> x.d.bgood, hist |-> x.n.hist, ends |-> x.n.ends, outs |-> Outcomes(x)]
Report == ~Done \/ PrintT("CASE " \o ToJson(CaseOf(m)))

(* ----------------------- what the model guarantees ----------------------- *)
Final == Done /\ m.reg = "net" /\ m.nres # <<"none">>
WithinData == m.lim < BIG => m.pos <= m.lim
OneOutcome == Done => ((m.err # <<"none">>) # (m.nres # <<"none">>))
FrameBound == (m.reg = "net" /\ m.n.fr > 0) => (m.n.fr <= m.net.nf /\ Len(m.n.times) + m.n.extra = m.n.fr /\ Len(m.n.ends) = Len(m.n.times))
ValidTimes == \A i \in 1..Len(m.n.times) : ~FBadTime(m.n.times[i][1]) /\ ~FBadTime(m.n.times[i][2])
                                           /\ ~(FZero(m.n.times[i][1]) /\ FZero(m.n.times[i][2]))
EndsGrow == \A i \in 2..Len(m.n.ends) : m.n.ends[i - 1][1] < m.n.ends[i][1]
\* an update uses the class of the latest spawn of its actor, which exists
SpawnOfId(e, a) == (e[1] = "new" /\ e[2] = a) \/ (e[1] = "next" /\ e[2] = "new" /\ (a - e[3]) * e[5] \in 1..e[4])
LastSpawn(h, i, a) ==
  LET s == {k \in 1..(i - 1) : SpawnOfId(h[k], a)} IN
  IF s = {} THEN -1 ELSE LET e == h[CHOOSE k \in s : \A j \in s : j <= k] IN IF e[1] = "new" THEN e[3] ELSE e[6]
UpdatesSpawned == (Done /\ ~Given(m)) => \A i \in 1..Len(m.n.hist) :
                    m.n.hist[i][1] = "upd" => LastSpawn(m.n.hist, i, m.n.hist[i][2]) = m.n.hist[i][3]
\* policies only control what they name
PolicySound ==
  Done => LET o == Outcomes(m) IN
    /\ \A n \in 1..3 : o[6 + n] \notin {"mismatch-h", "mismatch-b", "corrupt-header", "corrupt-body"}       \* never checked: no influence
    /\ \A c \in 0..2 : o[3 * c + 2] # "neterr" /\ o[3 * c + 3] \notin {"neterr", "frames"}
    /\ \A c \in 0..2 : (o[3 * c + 1] = "frames") = (o[3 * c + 2] = "frames")
    /\ m.err = <<"none">> => o[4] \in {"frames", "neterr"}                                                  \* a success stands whatever the checksum
    /\ (m.d.hgood /\ m.d.bgood) => \A n \in 1..3 : o[n] = o[6 + n]
    /\ m.err # <<"none">> => \A n \in 2..3, c \in 0..2 : o[3 * c + n] = o[3 * c + 1]                        \* the network policy cannot mend a file
\* a step only adds to what was read and decoded; an outcome is final
Grows(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Monotone ==
  \/ m.reg # m'.reg
  \/ /\ m.pos <= m'.pos /\ m.min <= m'.min /\ m'.lim <= m.lim
     /\ Grows(m.wire, m'.wire) /\ (m.reg = "file" => Grows(m.out, m'.out)) /\ Grows(m.n.hist, m'.n.hist) /\ Grows(m.n.ends, m'.n.ends)
     /\ Len(m.n.times) <= Len(m'.n.times)
     /\ m.n.fr <= m'.n.fr /\ Grows(m.n.frames, m'.n.frames)
     /\ m.err = <<"none">> \/ m'.err = m.err
     /\ m.nres = <<"none">> \/ m'.nres = m.nres
Progress == [][Monotone]_m
SpecOK == WithinData /\ OneOutcome /\ FrameBound /\ ValidTimes /\ EndsGrow /\ UpdatesSpawned
=============================================================================
