------------------------------ MODULE Scenarios ------------------------------
(***************************************************************************)
(* Exhaustive scenarios.  Each is a set of configurations; TLC explores    *)
(* every behaviour the environment of MC.tla offers from each of them.     *)
(* PROFILE selects the scenario, PART/PARTS a slice, TIER its size.        *)
(***************************************************************************)
EXTENDS MC

FULL == ENV("TIER", "quick") = "thorough"
SEED == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) ELSE 1

\* a class that spawns with neither location nor rotation
PLAIN == "Engine.ZoneInfo"
INTNAME == "Engine.PlayerReplicationInfo:Score"
BYTENAME == "Engine.PlayerReplicationInfo:Ping"
BOOLNAME == "Engine.Actor:bBlockActors"
NF(n) == P("NumFrames", "Int", n)
RL(yes) == P("BuildVersion", "Str", IF yes THEN RL223 ELSE Codes("221120.42953.406183"))
Base0 == [CFG0 EXCEPT !.nf = 1]
NetCfg(objs, caches, script, ver) ==
  [Base0 EXCEPT !.objs = objs, !.caches = caches, !.script = script, !.ver = ver, !.props = <<NF(1)>>]
Slice(n) == 1..n
\* this run's share of a scenario
Part(S) == LET q == SetToSeq(S) IN {q[i] : i \in {j \in 1..Len(q) : j % PARTS = PART}}

(* ---- every attribute type, at every version gate, all discriminants ---- *)
GATES == << <<868, 32, 10>>, <<868, 32, 9>>, <<868, 24, 10>>, <<868, 23, 8>>, <<868, 23, 7>>, <<868, 22, 7>>, <<868, 21, 10>>, <<868, 20, 7>>,
            <<868, 20, 1>>, <<868, 20, 0>>, <<868, 19, 7>>, <<868, 18, 7>>, <<868, 18, 6>>, <<868, 18, 0>>, <<868, 17, 0>>, <<868, 14, 0>>, <<868, 13, 0>>,
            <<868, 12, 0>>, <<868, 11, 0>>, <<867, 32, 10>>, <<867, 17, 0>>, <<869, 0, 0>>, <<869, 18, 1>>, <<866, 18, 7>>, <<865, 32, 0>> >>
AttrObjs(name) == <<PLAIN, name, INTNAME, "Core.Object">> \o PRODNAMES
AttrCfg(name, ver, rl, fill, lean) ==
  [NetCfg(AttrObjs(name), <<[ind |-> 0, props |-> <<<<1, 0>>, <<2, 1>>>>]>>,
          << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"upd", 1, 1>> >>, ver)
   EXCEPT !.props = <<NF(1), RL(rl)>>, !.fill = fill, !.lean = lean, !.salt = fill + 1, !.maxw = 45]
AttrSet(vers, fills) ==
  UNION { { AttrCfg(At(TAGNAMES[TAGLIST[t]], SEED), ver, rl, f, FALSE) :
              rl \in IF TAGLIST[t] = "QWordString" THEN {FALSE, TRUE} ELSE {FALSE} }
          : t \in Slice(Len(TAGLIST)), ver \in vers, f \in fills }
RANGE(s) == {s[i] : i \in 1..Len(s)}
B_attr == IF FULL THEN AttrSet(RANGE(GATES), {0, 1, 2, 3})
          ELSE AttrSet(RANGE(GATES), {1}) \cup AttrSet({GATES[1], GATES[15]}, {3})
B_attr0 == AttrSet({GATES[1], GATES[11]}, {0})
B_attrcut == { [c EXCEPT !.cut = 1, !.cutfrom = 1] : c \in AttrSet(IF FULL THEN RANGE(GATES) ELSE {GATES[1], GATES[15]}, IF FULL THEN {0, 1} ELSE {1}) }

(* ------------------- every known attribute name ------------------------- *)
B_names ==
  UNION { { [AttrCfg(ATTRNAMES[i], ver, ver[2] = 32, 1, TRUE) EXCEPT !.salt = i] : ver \in {GATES[1], GATES[17]} } : i \in Slice(Len(ATTRNAMES)) }
  \cup { AttrCfg(n, GATES[1], FALSE, 1, TRUE) : n \in {"TAGame.PRI_TA:Unheard", "", "Engine.Actor", PLAIN, "engine.actor:bblockactors",
         "TAGame.PRI_TA:ClientLoadoutX", "TAGame.PRI_TA:ClientLoadou", " Engine.Actor:Role"} }

(* ----------- every known class: ancestors, decoys, spawn data ------------ *)
ClassCfg(i, ver, rev) ==
  LET cls   == CLASSNAMES[i]
      c     == Names(cls)                                  \* itself and its ancestors
      decoy == SelectSeq([k \in 1..8 |-> At(CLASSNAMES, H(i + SEED, k))], LAMBDA n : n \notin RANGE(c))
      o0    == c \o decoy \o <<INTNAME, BYTENAME, BOOLNAME>>
      objs  == IF rev THEN Reverse(o0) ELSE o0
      idx   == Index(objs)
      n     == Len(c)
      k     == Len(c) + Len(decoy)
      \* ancestor a has stream id a - 1; decoys have ids below and above
      caches == [a \in 1..k |-> [ind |-> idx[o0[a]],
                   props |-> << <<idx[At(<<INTNAME, BYTENAME, BOOLNAME>>, a)], IF a <= n THEN a - 1 ELSE 20 + 7 * a>> >> ]]
      ups   == [a \in 1..(n - 1) |-> <<"upd", 1, a - 1>>]
  IN [NetCfg(objs, caches, << <<"new", 1, idx[cls]>> >> \o ups, ver) EXCEPT !.lean = TRUE, !.salt = i]
\* the same, ending with an id that only a non-ancestor has
Strange(c) == [c EXCEPT !.script = @ \o << <<"frame">>, <<"upd", 1, 15>> >>, !.props = <<NF(2)>>]
B_classes == UNION { { ClassCfg(i, ver, rev) : rev \in BOOLEAN, ver \in {GATES[1], GATES[15]} } : i \in Slice(Len(CLASSNAMES)) }

(* -------------------- spawn data: every combination ---------------------- *)
LANS == << <<>>, <<P("MatchType", "Name", Codes("Lan"))>>, <<P("MatchType", "Str", Codes("Lan"))>>, <<P("MatchType", "Name", Codes("Online"))>>,
           <<P("MatchType", "Int", 5)>>, <<P("MatchType", "Str", Codes("LAN"))>> >>
SPAWNERS == TABLES.spawnnames \o INSTNAMES \o <<"TAGame.Ball_TA", "TAGame.PRI_TA", "Core.Object", "TAGame.Nothing_TA", "Archetypes.Car.Car_Default",
              "Archetypes.Ball.Ball_Default", "TAGame.ProductAttribute_TA", "TAGame.CarComponent_Boost_TA">>
SpawnCfg(i, v, l) ==
  LET name == SPAWNERS[i]
      objs == <<"TAGame.X:Y", name, INTNAME>>
  IN [NetCfg(objs, <<[ind |-> 1, props |-> << <<2, 3>> >>]>>, << <<"new", 5, 1>>, <<"upd", 5, 3>> >>, v)
      EXCEPT !.props = l \o <<NF(1)>>, !.salt = i]
B_spawn == UNION { { SpawnCfg(i, v, l) : v \in {<<868, 20, 0>>, <<868, 19, 9>>, <<868, 14, 0>>, <<868, 13, 9>>, <<868, 32, 10>>, <<867, 32, 10>>, <<869, 0, 0>>},
                                         l \in IF i % 5 = 0 \/ FULL THEN RANGE(LANS) ELSE {LANS[1], LANS[2]} } : i \in Slice(Len(SPAWNERS)) }
  \cup { [SpawnCfg(1, GATES[1], <<>>) EXCEPT !.script = << <<"new", 5, o>> >>] : o \in {-1, 3, 4, MAX32, MIN32, 0, 2} }
\* names of actors placed in a level: every class, with and without stadium and suffix, and near misses
INSTPRE == <<"", "s.", "stadium_foggy_p.", ".", "..", "a.b.", "x", "stadium_p", "s.x", "s. ", "TheWorld:PersistentLevel.", "a.TheWorld:PersistentLevel.">>
INSTMID == <<LEVEL, LEVEL, LEVEL, "theworld:PersistentLevel.", "TheWorld:PersistentLevel", "TheWorld:Persistentlevel.", "TheWorld.PersistentLevel.">>
INSTPOST == <<"", "_0", "_123", "x", ".TheWorld:PersistentLevel.CrowdManager_TA_1">>
InstCfg(pre, mid, k, post) ==
  LET name == INSTPRE[pre] \o INSTMID[mid] \o INSTANCES[k] \o INSTPOST[post]
      objs == <<INTNAME, "TAGame." \o INSTANCES[k], name, LEVEL \o INSTANCES[k], "Engine.Actor", BYTENAME>>
  IN [NetCfg(objs, <<[ind |-> 4, props |-> << <<5, 3>> >>], [ind |-> 1, props |-> << <<0, 2>> >>]>>, << <<"new", 5, 2>>, <<"upd", 5, 3>>, <<"upd", 5, 2>> >>, <<868, 32, 10>>)
      EXCEPT !.salt = pre + 13 * mid + k, !.lean = TRUE]
B_inst == UNION { { InstCfg(pre, mid, k, post) : mid \in IF pre <= 3 THEN 3..7 ELSE {3}, post \in 1..Len(INSTPOST) } : pre \in 1..Len(INSTPRE), k \in Slice(Len(INSTANCES)) }
          \cup { InstCfg(2, 3, k, 1) : k \in 1..Len(INSTANCES) }
\* the data ends inside the spawn data
B_spawncut == { [SpawnCfg(i, v, LANS[1]) EXCEPT !.cut = 1] : i \in Slice(Len(SPAWNERS)), v \in {<<868, 32, 10>>, <<868, 18, 0>>} }

(* ---------------------- actor life: free histories ----------------------- *)
\* two classes that give the same stream ids different meanings, and widths
LIFEOBJS == <<PLAIN, "TAGame.ProductAttribute_TA", INTNAME, BYTENAME, BOOLNAME, "Core.Object">>
LIFECACHES == << [ind |-> 0, props |-> << <<2, 0>>, <<4, 1>> >>], [ind |-> 1, props |-> << <<3, 0>>, <<4, 2>>, <<2, 5>> >>] >>
LifeCfg(ids, ops, nf, ch) ==
  [NetCfg(LIFEOBJS, LIFECACHES, <<>>, GATES[1]) EXCEPT !.spawnable = <<0, 1>>, !.idset = ids, !.sidset = {0, 1, 2, 5}, !.ops = ops, !.nf = nf,
     !.props = <<NF(nf), P("MaxChannels", "Int", ch)>>]
LIFEIDS == << <<{0, 1}, 1023>>, <<{199, 200}, 1023>>, <<{0, 1022}, 1023>>, <<{200, 1000}, 2047>>, <<{0, 1}, 2>>, <<{3, 4}, 5>> >>
B_life == { LifeCfg(LIFEIDS[i][1], IF FULL THEN 5 ELSE 4, 2, LIFEIDS[i][2]) : i \in Slice(Len(LIFEIDS)) }
B_life1 == { LifeCfg({LIFEIDS[i][2] - 1}, IF FULL THEN 6 ELSE 5, 2, LIFEIDS[i][2]) : i \in Slice(Len(LIFEIDS)) }
\* ids at the top of every channel limit
B_ids == { [LifeCfg({0, ch - 2, ch - 1, ch, Pow2(k) - 1, Pow2(k)} \cap Nat, 1, 1, ch) EXCEPT !.spawnable = <<0>>, !.sidset = {0}] :
             ch \in (UNION { {Pow2(j) - 1, Pow2(j), Pow2(j) + 1} : j \in 1..17 }), k \in {1, 7, 10, 11} }

\* ids that agree in their low bits are different actors
B_alias == { [LifeCfg({a, a + Pow2(k)}, 2, 1, a + Pow2(k) + 1) EXCEPT !.sidset = {0}] : a \in {0, 1, 199, 200, 300}, k \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 20, 24, 29, 30} }

(* -------------------------------- frames --------------------------------- *)
TIMES == << 0, MIN32, 1, 786163454, 786163455, 786163456, 1065353216, -1082130432, 2139095040, -8388608, 2143289344, -4194304, 2139095041, -1360320194, -2147483647,
            8388607, 8388608, 2139095039 >>
TimeCfg(nf, ts) == [NetCfg(<<PLAIN, INTNAME>>, <<>>, <<>>, GATES[1]) EXCEPT !.times = ts, !.nf = nf, !.props = <<NF(nf)>>, !.close = 1]
B_frames ==
  { TimeCfg(2, TIMES) }
  \cup { [TimeCfg(nf, <<0, 1065353216>>) EXCEPT !.cut = 1] : nf \in IF FULL THEN 0..5 ELSE 0..3 }
  \cup { [TimeCfg(nf, <<1065353216>>) EXCEPT !.lim0 = 8 * l, !.close = 0] : nf \in {-1, 0, 1, 16, 17, 18, 19, MAX32, MIN32, 25000}, l \in {0, 8, 9, 16, 17, 18, 24} }
  \cup { [TimeCfg(1, <<1065353216>>) EXCEPT !.props = ps] : ps \in
         { <<>>, <<P("NumFrames", "Str", Codes("1"))>>, <<P("NumFrames", "Str", Codes("1")), NF(1)>>, <<NF(1), NF(2)>>, <<NF(2), NF(1)>>, <<P("numframes", "Int", 1)>>,
           <<P("NumFrames ", "Int", 1)>>, <<P("X", "Int", 1), NF(1)>> } }

(* ----------------- primitives at every bit offset ------------------------ *)
\* k booleans, five bits each, shift everything that follows
PRIMTAGS == <<"Location", "RotationTag", "RigidBody", "Welded", "Float", "Int", "Int64", "Enum", "PlayerHistoryKey", "Explosion", "DamageState", "LoadoutOnline", "ActiveActor">>
PrimCfg(t, k, ver, f) ==
  LET objs == <<PLAIN, At(TAGNAMES[PRIMTAGS[t]], SEED), INTNAME, BOOLNAME>> \o PRODNAMES
      ups == [i \in 1..k |-> <<"upd", 1, 2>>]
  IN [NetCfg(objs, <<[ind |-> 0, props |-> <<<<1, 0>>, <<2, 7>>, <<3, 2>>>>]>>,
             << <<"new", 1, 0>> >> \o ups \o << <<"upd", 1, 0>> >>, ver) EXCEPT !.fill = f, !.salt = 3 * k + f, !.maxw = 30]
B_prim == UNION { { PrimCfg(t, k, v, f) : k \in 0..7, v \in {GATES[1], GATES[13]}, f \in IF FULL THEN {0, 1, 2, 3} ELSE {1} } : t \in Slice(Len(PRIMTAGS)) }
\* and the data ends inside
B_primcut == UNION { { [PrimCfg(t, k, v, f) EXCEPT !.cut = 1, !.cutfrom = k + 1] : k \in 0..7, v \in {GATES[1], GATES[13]}, f \in IF FULL THEN {0, 1, 3} ELSE {3} } : t \in Slice(Len(PRIMTAGS)) }

(* ------------------------------ network text ----------------------------- *)
TextCfg(k, big) ==
  LET objs == <<PLAIN, TAGNAMES["String"][1], INTNAME, BOOLNAME>>
      ups == [i \in 1..k |-> <<"upd", 1, 2>>]
  IN [NetCfg(objs, <<[ind |-> 0, props |-> <<<<1, 0>>, <<2, 7>>, <<3, 2>>>>]>>,
             << <<"new", 1, 0>> >> \o ups \o << <<"upd", 1, 0>>, <<"upd", 1, 7>> >>, GATES[1]) EXCEPT !.bigtext = big, !.salt = k]
B_text == { TextCfg(k, b) : k \in 0..7, b \in BOOLEAN }

(* ---------------------------------- file --------------------------------- *)
FileBase == [Base0 EXCEPT !.objs = <<PLAIN, INTNAME>>, !.caches = <<[ind |-> 0, props |-> <<<<1, 4>>>>]>>, !.lens = {0}, !.maxw = 60]
KINDS9 == {Name(k) : k \in {"BoolProperty", "ByteProperty", "ArrayProperty", "FloatProperty", "IntProperty", "QWordProperty", "NameProperty", "StrProperty", "StructProperty"}}
BADKINDS == {Name(k) : k \in {"None", "intproperty", "IntProperty ", "Int", "", "ObjectProperty", "StructPropertyX", "MapProperty"}}
FVERS == << <<0, 0, 5>>, <<0, 1, 5>>, <<1, 0, 5>>, <<866, 17, 5>>, <<866, 18, 5>>, <<865, 18, 5>>, <<865, 32, 7>>, <<868, 32, 10>>, <<0, 18, 0>>, <<866, 0, 3>>, <<MAX32, MAX32, -1>>, <<MIN32, 18, 1>>, <<-1, -1, -1>> >>
\* one property of each kind, alone and nested, in every version class
PropsCfg(v, txt, str, bad, w) ==
  [FileBase EXCEPT !.ver = FVERS[v], !.keys = <<"a">>, !.kinds = KINDS9 \cup bad, !.maxw = w, !.texts = txt, !.strs = str, !.salt = v]
PTEXT == <<Win(<<65, 0>>), Utf(UTFPOOL[3])>>
PSTR  == <<Name("None"), Win(<<195, 169, 0>>)>>
B_props ==
  { PropsCfg(v, {PTEXT[1]}, RANGE(PSTR), {}, IF FULL THEN 24 ELSE 16) : v \in Slice(Len(FVERS)) }
  \cup { PropsCfg(v, {PTEXT[t]}, {PSTR[s]}, BADKINDS, IF FULL THEN 24 ELSE 20) : v \in {1, 8}, t \in {1, 2}, s \in {1, 2} }
\* texts in the header: every special form, limits, and invalid UTF-8
BIGTEXTS == { [sz |-> MAX_TEXT, bs |-> <<200>>, rep |-> MAX_TEXT], [sz |-> -MAX_TEXT, bs |-> <<17, 4>>, rep |-> MAX_TEXT], [sz |-> MAX_TEXT - 1, bs |-> <<65>>, rep |-> MAX_TEXT - 1],
              NoText(MAX_TEXT + 1), NoText(-MAX_TEXT - 1), NoText(MIN32), NoText(MAX32), NoText(0), NoText(-1073741824), NoText(1073741824), NoText(65536), NoText(-65536) }
B_ftext ==
  { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name(k)}, !.maxw = 12, !.texts = {t}, !.lens = {0}] :
            k \in {"StrProperty", "NameProperty"},
            t \in {Win(WINPOOL[i]) : i \in 1..Len(WINPOOL)} \cup {Utf(UTFPOOL[i]) : i \in 1..Len(UTFPOOL)} \cup BIGTEXTS }
  \cup { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("StructProperty"), Name("ByteProperty")}, !.maxw = 9, !.strs = {s}] :
            s \in {Win(STRPOOL[i]) : i \in 1..Len(STRPOOL)} \cup {Win(BADSTR[i]) : i \in 1..Len(BADSTR)} \cup {NoText(0), NoText(-1), NoText(MIN32), NoText(MAX32), NoText(30000)} }
\* all 256 windows-1252 bytes, all leading UTF-8 bytes
B_bytes ==
  { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("StrProperty")}, !.maxw = 12, !.texts = {Win([k \in 1..17 |-> IF k = 17 THEN 0 ELSE 16 * i + k - 1])}] : i \in 0..15 }
  \cup { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("StructProperty")}, !.maxw = 9, !.strs = {Win(<<i>> \o t \o <<0>>)}] :
           i \in 128..255, t \in {<<>>, <<128>>, <<191, 128>>, <<160, 128>>, <<159, 191>>, <<144, 128, 128>>, <<143, 191, 191>>, <<128, 65>>} }
\* each list of the body at and around its limit
SECTIONS == <<"levels", "keyframes", "debug info", "tickmarks", "packages", "objects", "names", "class index", "net cache">>
LISTLENS == {0, 1, 2, 3, 10, 16, 64, 100, 127, 128, 129, 255, 256, 257, 1000, MAX_LIST - 1, MAX_LIST, MAX_LIST + 1, -1, -2, MIN32, MAX32, 65536, 16777216}
B_lists ==
  UNION { { [FileBase EXCEPT !.bigsec = SECTIONS[i], !.biglens = {n}, !.objs = IF SECTIONS[i] = "net cache" THEN @ ELSE @,
             !.texts = {NoText(0)}, !.strs = {NoText(0)}, !.lens = {0}, !.caches = IF SECTIONS[i] = "objects" THEN <<>> ELSE @,
             !.salt = i] : n \in IF SECTIONS[i] = "net cache" THEN LISTLENS \ 17..1000 ELSE LISTLENS } : i \in Slice(Len(SECTIONS)) }
\* each list of the body with texts of every form, in the first and in the second place
BODYTEXTS ==
  << <<65, 32>>, <<32, 65>>, <<65, 32, 32>>, <<65, 9>>, <<65, 10>>, <<13, 65>>, <<32>>, <<9, 10>>, <<65, 0>>, <<0, 65>>, <<0>>, <<>>, <<65, 66, 67>>, <<97, 98, 99>>, Codes("None"), Codes("none"),
     Codes("_123"), Codes("Thing_12"), Codes("_Thing"), <<46>>, Codes("a.b:c"), <<34, 92>>, <<127>>, <<31>>, Times(40, <<97>>), Times(70, <<90>>), <<49, 50>>, <<45, 49>> >>
WINHIGH == << <<233>>, <<65, 160>>, <<160, 65>>, <<128, 32>>, <<129, 157>> >>
BODYUTF == << <<65, 0, 32, 0>>, <<0, 48>>, <<65, 0, 0, 48>>, <<40, 32, 65, 0>>, <<255, 254, 65, 0>>, <<61, 216, 0, 222>>, <<233, 0>>, <<0, 0>>, <<>> >>
BODYSTR == << <<195, 169, 32>>, <<194, 160>>, <<65, 194, 160>>, <<227, 128, 128, 65>>, <<239, 187, 191, 65>>, <<240, 159, 154, 128>> >>
BodyWin == { Win(BODYTEXTS[i] \o <<0>>) : i \in 1..Len(BODYTEXTS) } \cup { Win(BODYTEXTS[i]) : i \in {13, 15, 26} }
BodyAll == BodyWin \cup { Win(WINHIGH[i] \o <<0>>) : i \in 1..Len(WINHIGH) } \cup { Utf(BODYUTF[i] \o <<0, 0>>) : i \in 1..Len(BODYUTF) } \cup {NoText(0)}
BodyStr == BodyWin \cup { Win(BODYSTR[i] \o <<0>>) : i \in 1..Len(BODYSTR) }
BodyCfg(s, ts, ss, v) == [FileBase EXCEPT !.bigsec = s, !.biglens = {2}, !.lens = {0}, !.texts = ts, !.strs = ss, !.caches = <<>>, !.ver = v]
B_body ==
  { BodyCfg(s, {t, Win(<<88, 0>>)}, {Win(<<65, 0>>)}, v) : s \in {"levels", "tickmarks", "packages", "objects", "names"}, t \in BodyAll, v \in {<<868, 32, 10>>} }
  \cup { [BodyCfg("debug info", {t, Win(<<88, 0>>)}, {Win(<<65, 0>>)}, <<868, 32, 10>>) EXCEPT !.biglens = {1}] : t \in BodyAll }
  \cup { BodyCfg("class index", {Win(<<65, 0>>)}, {t, Win(<<88, 0>>)}, v) : t \in BodyStr, v \in {<<868, 32, 10>>} }
  \cup { BodyCfg(s, {Win(<<65, 32, 0>>), Win(<<66, 0>>)}, {Win(<<65, 32, 0>>), Win(<<66, 0>>)}, v) : s \in RANGE(SECTIONS) \ {"net cache"}, v \in RANGE(FVERS) }
\* network data so long that what follows it lies past the largest offset
VastCfg(n, s, l) == [FileBase EXCEPT !.vast = TRUE, !.netsizes = {n}, !.csizes = {0}, !.keys = <<>>, !.objs = <<PLAIN>>, !.caches = <<>>, !.bigsec = s, !.biglens = {l}]
B_vast == { VastCfg(MAX32, "-", 0), VastCfg(MAX32 - 70, "packages", -1), VastCfg(MAX32 - 2, "net cache", MAX_LIST + 1), VastCfg(MAX32, "debug info", -1) }
\* property arrays at and around the limit
B_arrays == { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("ArrayProperty")}, !.maxw = 8, !.arrlens = {n}] :
                n \in LISTLENS }
\* declared sizes of the two sections
DECLS == {EXACT, 0, 1, 2, 100, -1, MIN32, MAX32, 400, 1000000}
B_sizes == { [FileBase EXCEPT !.hsizes = {d}, !.keys = <<>>] : d \in DECLS } \cup { [FileBase EXCEPT !.csizes = {d}] : d \in DECLS }
           \cup { [FileBase EXCEPT !.netsizes = {d}] : d \in {0, 1, 2, 77, 5000, -1, MIN32, MAX32, 1000000} }
           \cup { [FileBase EXCEPT !.hsizes = {d}, !.csizes = {d}, !.cut = 1] : d \in {100, EXACT} }
\* ends of data everywhere, with and without right checksums
B_filecut ==
  { [FileBase EXCEPT !.cut = 1, !.keys = <<"a">>, !.kinds = {k}, !.maxw = 12, !.crcs = {TRUE}, !.lens = {1}, !.ver = v] : k \in {Name("IntProperty")}, v \in {<<868, 32, 10>>, <<866, 17, 5>>} }
  \cup { [FileBase EXCEPT !.cut = 1, !.keys = <<"a">>, !.kinds = {k}, !.maxw = 9, !.crcs = {TRUE}, !.lens = {0}, !.ver = v] : k \in KINDS9, v \in {<<868, 32, 10>>, <<0, 0, 0>>} }
PNET(props, sz) == [FileBase EXCEPT !.netsizes = sz, !.crcs = {TRUE, FALSE}, !.nf = 1, !.keys = props, !.maxw = 10, !.kinds = {Name("IntProperty")}]
B_policy ==
  { [PNET(<<"NumFrames">>, {9, 2}) EXCEPT !.nf = nf, !.cut = c] : nf \in {1, 20}, c \in {0, 1} }
  \cup { [PNET(<<"NumFrames">>, {9}) EXCEPT !.kinds = {Name("Oops"), Name("StrProperty")}, !.texts = {NoText(MAX32), Win(<<65, 0>>)}] : nf \in {1} }
  \cup { [PNET(<<"NumFrames">>, {9}) EXCEPT !.bigsec = s, !.biglens = {-1, 2}] : s \in {"levels", "names", "net cache"} }
  \cup { [PNET(<<"NumFrames">>, {9}) EXCEPT !.hsizes = {h}, !.csizes = {b}] : h \in {EXACT, 60, -1}, b \in {EXACT, 20, 0, MAX32} }
\* nested structures and arrays around the limit
NestCfg(k, kind) == [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name(kind)}, !.arrlens = {1}, !.strs = {Win(<<120, 0>>)}, !.label = "nest", !.force = TRUE,
                       !.maxw = IF kind = "ArrayProperty" THEN 7 + 5 * k ELSE 7 + 5 * k]
B_nest == { [NestCfg(k, kd) EXCEPT !.texts = {Win(<<65, 0>>)}] : k \in {62, 63, 64, 65, 66, 70}, kd \in {"ArrayProperty", "StructProperty"} }

(* ------------------- names that are long or not ASCII -------------------- *)
\* a file's unknown property kinds: every position of every kind of character
CHARS == << <<195, 169>>, <<226, 130, 172>>, <<240, 159, 154, 128>>, <<97>> >>
LONGS == { Win(Times(n, <<65>>) \o Times(k, CHARS[c]) \o <<0>>) : n \in 0..3, c \in 1..Len(CHARS), k \in {1, 2, 4, 8, 16, 33, 90} }
B_longkind == { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {s}, !.maxw = 9, !.crcs = {TRUE, FALSE}] : s \in LONGS }
              \cup { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("StructProperty")}, !.maxw = 9, !.strs = {s}] : s \in LONGS }
\* objects named so, in the messages of network errors (a tab stands for such a character)
TabName(n, k) == Str([i \in 1..(n + k) |-> IF i <= n THEN 65 ELSE 9])
LongCfg(n, k, sc) ==
  LET nm(i) == TabName(n, k) \o Str(<<48 + i>>) IN
  NetCfg(<<nm(0), INTNAME, nm(1)>>, <<[ind |-> 0, props |-> << <<1, 0>>, <<2, 1>> >>]>>, sc, GATES[1])
B_longobj == UNION { { LongCfg(n, k, sc) : sc \in { << <<"new", 1, 0>>, <<"upd", 1, 1>> >>, << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"upd", 1, 1>> >>,
                                                     << <<"new", 1, 0>>, <<"new", 2, 7>> >>, << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"new", 2, 7>> >> } } :
                       n \in 0..3, k \in {0, 1, 2, 5, 8, 15, 31, 63, 80} }

(* ----------------- names that are almost the known ones ------------------ *)
Lower(c) == [i \in 1..Len(c) |-> IF c[i] \in 65..90 THEN c[i] + 32 ELSE c[i]]
Upper(c) == [i \in 1..Len(c) |-> IF c[i] \in 97..122 THEN c[i] - 32 ELSE c[i]]
NearCodes(s) ==
  LET c == Codes(s) n == Len(c) IN
  { c \o <<0>>, c \o <<32>>, <<32>> \o c, c \o <<65>>, <<65>> \o c, c \o <<46>>, <<95>> \o c, c \o c, Lower(c), Upper(c), SubSeq(c, 1, n - 1), SubSeq(c, 2, n),
    <<>>, SubSeq(c, 1, 1), Reverse(c), [c EXCEPT ![n] = @ + 1], [c EXCEPT ![1] = @ + 1], [c EXCEPT ![(n + 1) \div 2] = @ + 1], c \o <<195, 169>> } \ {c}
\* the name itself ends with whatever byte takes the terminator's place
NearNames(s) == { Win(c \o <<0>>) : c \in NearCodes(s) } \cup { Win(Codes(s) \o <<7>>), Win(Codes(s) \o <<0, 0>>) }
PC(c, t, v) == [k |-> c, t |-> t, v |-> v]
KINDLIST == <<"BoolProperty", "ByteProperty", "ArrayProperty", "FloatProperty", "IntProperty", "QWordProperty", "NameProperty", "StrProperty", "StructProperty">>
B_near ==
  { [FileBase EXCEPT !.xkeys = {k}, !.kinds = {kd}, !.maxw = 8, !.lens = {0}] : k \in NearNames("None"), kd \in {Name("IntProperty")} }
  \cup { [FileBase EXCEPT !.xkeys = {Name("a"), k, Name("None")}, !.kinds = {kd}, !.maxw = 16, !.arrlens = {1}] : k \in NearNames("None"), kd \in {Name("StructProperty"), Name("ArrayProperty")} }
  \cup { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {kd}, !.maxw = 8, !.ver = v] : kd \in UNION { NearNames(KINDLIST[i]) : i \in Slice(Len(KINDLIST)) }, v \in {<<868, 32, 10>>, <<0, 0, 0>>} }
  \cup { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("ByteProperty")}, !.strs = {k, Win(<<66, 0>>)}, !.maxw = 8] : k \in NearNames("None") }
\* header properties the network data depends on, known by almost the right name, or with almost the right value
NearProps ==
  { <<PC(c, "Int", 1)>> : c \in NearCodes("NumFrames") }
  \cup { <<NF(1), PC(c, "Int", 3)>> : c \in NearCodes("MaxChannels") }
  \cup { <<NF(1), PC(c, t, Codes("Lan"))>> : c \in NearCodes("MatchType"), t \in {"Str", "Name"} }
  \cup { <<NF(1), P("MatchType", t, v)>> : v \in NearCodes("Lan"), t \in {"Str", "Name"} }
  \cup { <<NF(1), PC(c, "Str", RL223)>> : c \in NearCodes("BuildVersion") }
  \cup { <<NF(1), P("BuildVersion", "Str", v)>> : v \in NearCodes("221120.42953.406184") \cup NearCodes("221120.42953.406183") \cup NearCodes("221120") \cup NearCodes("230504.34278.425193") }
NearNetCfg(ps, v) ==
  [NetCfg(<<PLAIN, TAGNAMES["QWordString"][1], INTNAME>>, <<[ind |-> 0, props |-> <<<<1, 0>>, <<2, 1>>>>]>>,
          << <<"new", 1, 0>>, <<"upd", 1, 1>>, <<"upd", 1, 0>>, <<"upd", 1, 1>> >>, v) EXCEPT !.props = ps, !.lean = TRUE, !.fill = 1]
\* objects named almost like known ones
NearObj(c) == Str(SelectSeq(c, LAMBDA b : b \in 32..126))
NearObjs(s) == { NearObj(c) : c \in NearCodes(s) } \ {s}
ATTRNEAR(i) == AttrCfg(At(SetToSeq(NearObjs(ATTRNAMES[i])), i + SEED), GATES[1], FALSE, 1, TRUE)
CLASSNEAR(i) ==
  LET n == CLASSNAMES[i]  near == At(SetToSeq(NearObjs(n)), i + SEED)
  IN [NetCfg(<<near, n, INTNAME, "Engine.Actor">>, <<[ind |-> 0, props |-> << <<2, 3>> >>], [ind |-> 1, props |-> << <<2, 2>> >>], [ind |-> 3, props |-> << <<2, 1>> >>]>>,
             << <<"new", 5, 0>>, <<"upd", 5, 3>> >>, GATES[1]) EXCEPT !.salt = i]
B_nearnet ==
  { NearNetCfg(ps, v) : ps \in NearProps, v \in {GATES[1], GATES[16]} }
  \cup { ATTRNEAR(i) : i \in Slice(Len(ATTRNAMES)) } \cup { CLASSNEAR(i) : i \in Slice(Len(CLASSNAMES)) }

(* ------------- text of every length with one special unit ---------------- *)
PLACELENS == {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 140, 255, 256, 257, 300} \cup IF FULL THEN 1..80 \cup {511, 512, 513} ELSE {}
Places(n) == ({0, 1, 2, n \div 2, n - 1, n - 2, n - 3, 8 * ((n - 1) \div 8), 16 * ((n - 1) \div 16), 32 * ((n - 1) \div 32), 64 * ((n - 1) \div 64), 64 * ((n - 1) \div 64) - 1} \cap 0..(n - 1))
              \cup IF n <= 9 \/ FULL THEN 0..(n - 1) ELSE {}
\* n units, the p-th of which is special
Placed(n, p, plain, special) == Times(p, plain) \o special \o Times(n - p - 1, plain)
WINUNITS == << <<233>>, <<128>>, <<0>> >>
UTFUNITS == << <<233, 0>>, <<172, 32>>, <<61, 216, 0, 222>>, <<0, 216>>, <<0, 220>>, <<0, 0>>, <<65, 1>> >>
STRUNITS == << <<195, 169>>, <<240, 159, 154, 128>>, <<226, 130, 172>>, <<255>>, <<195>>, <<0>>, <<237, 160, 128>> >>
PlacedWin(n, k) == { Win(Placed(n, p, <<65>>, WINUNITS[k]) \o <<0>>) : p \in Places(n) }
PlacedUtf(n, k) == { Utf(Placed(n, p, <<65, 0>>, UTFUNITS[k]) \o <<0, 0>>) : p \in Places(n) }
PlacedStr(n, k) == { Win(Placed(n, p, <<65>>, STRUNITS[k]) \o <<0>>) : p \in Places(n) }
PlaceText(n) == UNION { PlacedWin(n, k) : k \in 1..Len(WINUNITS) } \cup UNION { PlacedUtf(n, k) : k \in 1..Len(UTFUNITS) }
B_place ==
  { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {Name("StrProperty")}, !.maxw = 8, !.force = TRUE, !.lens = {0}, !.texts = {t}] : t \in UNION { PlaceText(n) : n \in PLACELENS } }
  \cup { [FileBase EXCEPT !.xkeys = {t}, !.kinds = {Name("IntProperty")}, !.maxw = 8, !.lens = {0}] :
            t \in UNION { PlacedStr(n, k) : n \in PLACELENS, k \in 1..Len(STRUNITS) } }
PlaceNetCfg(n, k) ==
  [NetCfg(<<PLAIN, TAGNAMES["String"][1], INTNAME, BOOLNAME>>, <<[ind |-> 0, props |-> <<<<1, 0>>, <<2, 7>>, <<3, 2>>>>]>>,
          << <<"new", 1, 0>> >> \o [i \in 1..k |-> <<"upd", 1, 2>>] \o << <<"upd", 1, 0>>, <<"upd", 1, 7>> >>, GATES[1]) EXCEPT !.ntexts = PlaceText(n), !.salt = n]
B_placenet == { PlaceNetCfg(n, n % 8) : n \in PLACELENS }

(* ------------- repetition: counts around every power of 256 -------------- *)
COUNTS == {1, 2, 3, 7, 8, 9, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 254, 255, 256, 300, 511, 512, 1000, 1023, 1024, 65534, 65535, 65536}
          \cup IF FULL THEN {4, 10, 17, 50, 240, 4095, 4096, 65537, 131072, 200000} ELSE {}
AGAINS(k) ==
  << << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"frame">>, <<"frame">>, <<"again", "frame", k>>, <<"upd", 1, 1>> >>,                     \* empty frames
     << <<"new", 1, 0>>, <<"frame">>, <<"upd", 1, 0>>, <<"frame">>, <<"again", "frame", k>>, <<"upd", 1, 1>> >>,                     \* frames with an update
     << <<"new", 1, 0>>, <<"frame">>, <<"new", 1, 0>>, <<"del", 7>>, <<"frame">>, <<"again", "frame", k>>, <<"frame">>, <<"frame">> >>,
     << <<"new", 1, 0>>, <<"frame">>, <<"new", 1, 0>>, <<"again", "actor", k>>, <<"upd", 1, 0>> >>,                                  \* spawned anew
     << <<"new", 1, 0>>, <<"del", 300>>, <<"again", "actor", k>>, <<"upd", 1, 0>> >>,                                                \* deleted again
     << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"again", "actor", k>>, <<"del", 1>>, <<"frame">>, <<"new", 1, 1>>, <<"upd", 1, 2>> >>,   \* updated again
     << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"frame">>, <<"frame">>, <<"again", "frame", k>> >>,                                       \* nothing afterwards
     << <<"new", 3, 1>>, <<"frame">>, <<"frame">>, <<"again", "frame", k>> >>,
     << <<"frame">>, <<"again", "frame", k>>, <<"new", 3, 1>>, <<"frame">>, <<"new", 1, 0>> >>,                                       \* nothing before
     << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"again", "prop", k>>, <<"upd", 1, 1>>, <<"frame">>, <<"upd", 1, 0>> >> >>                \* within one update
FramesIn(sc) == 1 + Cardinality({i \in 1..Len(sc) : sc[i] = <<"frame">>})
AgainTotal(sc) == LET a == {i \in 1..Len(sc) : sc[i][1] = "again" /\ sc[i][2] = "frame"} IN IF a = {} THEN 0 ELSE sc[CHOOSE i \in a : TRUE][3]
AgainCfg(sc, fail) ==
  LET s2 == IF fail THEN sc \o << <<"upd", 9, 0>> >> ELSE sc
      nf == FramesIn(sc) + AgainTotal(sc)
  IN [NetCfg(LIFEOBJS, LIFECACHES, s2, GATES[1]) EXCEPT !.nf = nf, !.props = <<NF(nf)>>]
B_again == UNION { { AgainCfg(AGAINS(k)[i], fail) : i \in 1..Len(AGAINS(k)) } : k \in COUNTS, fail \in BOOLEAN }
B_againh == { [FileBase EXCEPT !.keys = <<"a">>, !.kinds = {kd}, !.maxw = 9, !.hrep = {k}] : kd \in KINDS9, k \in COUNTS }

(* --------------- names that share parts with the known ones -------------- *)
RECURSIVE Find(_, _, _)
Find(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = ch THEN i ELSE Find(s, ch, i + 1)
AttrKin(n) ==
  LET c == Find(n, ":", 1)  d == Find(n, ".", 1)
      suf == SubSeq(n, c + 1, Len(n))  cls == SubSeq(n, 1, c - 1)
  IN << "Zed.Other_TA:" \o suf, cls \o ":Zed" \o suf, suf, SubSeq(n, d + 1, Len(n)), "Zed." \o SubSeq(n, d + 1, Len(n)), cls \o "X:" \o suf, "X:" \o n, n \o ":" \o suf >>
\* the known name is decoded, then the unknown one is not; listed in either order
AttrKinCfg(n, kin, ord) ==
  LET objs == IF ord THEN <<PLAIN, n, kin, INTNAME>> ELSE <<PLAIN, kin, n, INTNAME>>
      k == IF ord THEN 1 ELSE 2
      ps == IF ord THEN << <<k, 0>>, <<3 - k, 1>>, <<3, 2>> >> ELSE << <<3, 2>>, <<3 - k, 1>>, <<k, 0>> >>
  IN [NetCfg(objs \o PRODNAMES, <<[ind |-> 0, props |-> ps]>>, << <<"new", 1, 0>>, <<"upd", 1, 0>>, <<"upd", 1, 2>>, <<"upd", 1, 1>> >>, GATES[1])
      EXCEPT !.lean = TRUE, !.fill = 1, !.salt = Len(n), !.maxw = 45]
ClassKin(n) ==
  LET d == Find(n, ".", 1)  tail == SubSeq(n, d + 1, Len(n))
  IN << "Zed." \o tail, SubSeq(n, 1, d) \o "Zed" \o tail, tail, n \o "_0", "Archetypes." \o n, n \o ":Archetype", SubSeq(n, 1, d) \o tail \o "." \o tail >>
ClassKinCfg(n, kin, ord) ==
  LET i == IF ord THEN 0 ELSE 1
      objs == IF ord THEN <<n, kin, INTNAME, "Engine.Actor">> ELSE <<kin, n, INTNAME, "Engine.Actor">>
  IN [NetCfg(objs, <<[ind |-> 0, props |-> << <<2, 3>> >>], [ind |-> 1, props |-> << <<2, 4>> >>], [ind |-> 3, props |-> << <<2, 1>> >>]>>,
             << <<"new", 5, i>>, <<"upd", 5, 3 + i>>, <<"new", 6, 1 - i>>, <<"upd", 6, 1>> >>, GATES[1]) EXCEPT !.salt = Len(n), !.lean = TRUE]
B_kin ==
  UNION { { AttrKinCfg(ATTRNAMES[i], k, o) : k \in (IF FULL THEN RANGE(AttrKin(ATTRNAMES[i])) ELSE {AttrKin(ATTRNAMES[i])[1], At(AttrKin(ATTRNAMES[i]), i + SEED)}) \ RANGE(ATTRNAMES), o \in BOOLEAN } : i \in Slice(Len(ATTRNAMES)) }
  \cup UNION { { ClassKinCfg(CLASSNAMES[i], k, o) : k \in (IF FULL THEN RANGE(ClassKin(CLASSNAMES[i])) ELSE {ClassKin(CLASSNAMES[i])[1], At(ClassKin(CLASSNAMES[i]), i + SEED)}) \ RANGE(CLASSNAMES), o \in BOOLEAN }
                : i \in Slice(Len(CLASSNAMES)) }

(* ----------------------------- many of each ------------------------------ *)
AMOUNTS == {1, 2, 3, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300}
BORDERS(n) == (AMOUNTS \cup {0, n - 2, n - 1, n \div 2}) \cap 0..(n - 1)
\* n classes that all give a stream id some unknown attribute, which another class lacks
OTHERCLASSES == SelectSeq(CLASSNAMES, LAMBDA n : n \notin RANGE(Names(PLAIN)))
ManyClasses(n, same) ==
  LET cls == SubSeq(OTHERCLASSES, 1, n)
      nm(i) == IF same THEN "Zed.Z_TA:A" ELSE "Zed.Z_TA:A" \o ToString((i * 7) % n)
      objs == <<PLAIN, INTNAME>> \o cls \o [i \in 1..n |-> nm(i)]
  IN [NetCfg(objs, << [ind |-> 0, props |-> << <<1, 20>> >>] >> \o [i \in 1..n |-> [ind |-> 1 + i, props |-> << <<1 + n + (IF same THEN 1 ELSE i), 7>> >>]],
             << <<"new", 1, 0>>, <<"upd", 1, 20>>, <<"upd", 1, 7>> >>, GATES[1]) EXCEPT !.lean = TRUE]
\* n stream ids in one class, in ascending or descending order, in one or more cache entries
ManyIds(n, down, split) ==
  LET ps == [j \in 1..n |-> LET k == IF down THEN n - j ELSE j - 1 IN <<1 + (k % 3), k>>]
      es == SetToSeq(BORDERS(n))
  IN [NetCfg(<<PLAIN, INTNAME, BYTENAME, BOOLNAME>>,
             IF split THEN [j \in 1..n |-> [ind |-> 0, props |-> <<ps[j]>>]] ELSE <<[ind |-> 0, props |-> ps]>>,
             << <<"new", 1, 0>> >> \o [i \in 1..Len(es) |-> <<"upd", 1, es[i]>>], GATES[1]) EXCEPT !.lean = TRUE]
\* n objects before those that matter
ManyObjects(n) ==
  [NetCfg([i \in 1..n |-> "Zed.Z" \o ToString(i)] \o LIFEOBJS, [i \in 1..2 |-> [ind |-> n + LIFECACHES[i].ind, props |-> [j \in 1..Len(LIFECACHES[i].props) |-> <<n + LIFECACHES[i].props[j][1], LIFECACHES[i].props[j][2]>>]]],
          << <<"new", 1, n>>, <<"upd", 1, 0>>, <<"new", 2, n + 1>>, <<"upd", 2, 2>>, <<"upd", 1, 1>>, <<"frame">>, <<"new", 1, n + 1>>, <<"upd", 1, 0>>, <<"new", 2, n - 1>> >>, GATES[1]) EXCEPT !.nf = 2, !.props = <<NF(2)>>]
\* n actors alive, of alternating classes, updated, replaced and deleted in one frame or the next
ManyActors(n, base, rev) ==
  LET id(i) == base + (IF rev THEN n - 1 - i ELSE i)
      es == SetToSeq(BORDERS(n))
      news == [i \in 1..n |-> <<"new", id(i - 1), i % 2>>]
      ups  == [i \in 1..Len(es) |-> <<"upd", id(es[i]), 0>>]
      dels == [i \in 1..Len(es) |-> <<"del", id(es[i])>>]
      agn  == [i \in 1..Len(es) |-> <<"new", id(es[i]), (es[i] % 2)>>]
  IN [NetCfg(LIFEOBJS, LIFECACHES, news \o ups \o << <<"frame">> >> \o agn \o ups \o << <<"frame">> >> \o dels \o << <<"upd", base + 1000, 0>> >>, GATES[1])
      EXCEPT !.lean = TRUE, !.nf = 3, !.props = <<NF(3), P("MaxChannels", "Int", 2047)>>]
\* crowds: n more actors, their ids in a row, spawned, updated, deleted, spawned anew; then one of them alone
CROWDS == IF FULL THEN {1, 7, 63, 199, 200, 201, 255, 256, 257, 511, 512, 1000, 1022, 2000, 4095, 4096, 10000, 30000}
          ELSE {1, 199, 256, 1022}
CrowdCfg(n, base, down, one, max) ==
  LET dir == IF down THEN "back" ELSE "next"
      from == IF down THEN base + n ELSE base
      id == CASE one = 0 -> base [] one = 1 -> base + n [] OTHER -> base + (n \div 2)
  IN [NetCfg(LIFEOBJS, LIFECACHES,
        << <<"new", from, 0>>, <<"again", dir, n>>, <<"upd", id, 0>>, <<"upd", from, 1>>, <<"again", dir, n>>, <<"frame">>,
           <<"new", id, 1>>, <<"upd", id, 2>>, <<"upd", base, IF id = base THEN 2 ELSE 0>>, <<"upd", base + n, IF id = base + n THEN 2 ELSE 0>>, <<"frame">>,
           <<"del", from>>, <<"again", dir, Max2(n - 1, 1)>>, <<"del", from>>, <<"upd", IF down THEN base ELSE base + n, IF id = (IF down THEN base ELSE base + n) THEN 2 ELSE 0>>,
           <<"new", id, 1>>, <<"upd", id, 2>>, <<"upd", IF down THEN base + n ELSE base, IF id = (IF down THEN base + n ELSE base) THEN 2 ELSE 0>> >>, GATES[1])
      EXCEPT !.lean = TRUE, !.nf = 3, !.props = <<NF(3), P("MaxChannels", "Int", max)>>]
B_crowd == { CrowdCfg(n, b, d, o, 65536) : n \in CROWDS, b \in {0, 1, 200}, d \in BOOLEAN, o \in 0..2 }
           \cup { CrowdCfg(4095, 200, d, 2, 65536) : d \in BOOLEAN }
           \cup { CrowdCfg(n, b, d, o, 2048) : n \in {k \in CROWDS : k < 1800}, b \in {0, 200}, d \in BOOLEAN, o \in 0..2 }
B_scale ==
  { ManyClasses(n, s) : n \in {k \in AMOUNTS : k <= Len(OTHERCLASSES)}, s \in BOOLEAN }
  \cup { ManyIds(n, d, s) : n \in AMOUNTS \cup {511, 512, 513}, d \in BOOLEAN, s \in BOOLEAN }
  \cup { ManyObjects(n) : n \in AMOUNTS \cup {1000} }
  \cup { ManyActors(n, b, r) : n \in {2, 8, 63, 64, 65, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300}, b \in {0, 100, 199}, r \in BOOLEAN }

(* -------------------- resolution: small caches, all ---------------------- *)
\* a grandparent, a parent and a child, each offering any subset of ids; the child is spawned
TREE == <<"TAGame.Car_TA", "TAGame.Vehicle_TA", "TAGame.RBActor_TA">>
PropSets == { <<>>, << <<0, 0>> >>, << <<1, 0>> >>, << <<0, 1>>, <<1, 2>> >>, << <<2, 3>> >>, << <<1, 4>>, <<0, 4>> >> }
ResCfg(a, b, c, ord, sid) ==
  LET base == 3
      sh(ps) == [i \in 1..Len(ps) |-> <<base + ps[i][1], ps[i][2]>>]
      e == << [ind |-> 0, props |-> sh(a)], [ind |-> 1, props |-> sh(b)], [ind |-> 2, props |-> sh(c)] >>
      cs == CASE ord = 1 -> e [] ord = 2 -> Reverse(e) [] OTHER -> <<e[2], e[1], e[3], [ind |-> 0, props |-> sh(b)]>>
  IN [NetCfg(TREE \o <<INTNAME, BYTENAME, BOOLNAME>>, cs, << <<"new", 1, 0>>, <<"upd", 1, sid>> >>, GATES[1]) EXCEPT !.lean = TRUE]
\* stream ids the width implied by the largest one can express
TopSid(c) == LET n == NetOnly(c) IN CacheOf(n.net.objs, n.net.idx, n.net.caches, 0)
B_resolve ==
  LET sets == SetToSeq(PropSets)
      combos == { <<i, j, k, o>> : i \in Slice(Len(sets)), j \in 1..Len(sets), k \in IF FULL THEN 1..Len(sets) ELSE {1, 2, 4, 6}, o \in 1..3 }
  IN UNION { { c \in { ResCfg(sets[q[1]], sets[q[2]], sets[q[3]], q[4], s) : s \in 0..4 } : LET t == TopSid(c) IN c.script[2][3] <= TopOf(t.bits, t.max) } : q \in combos }
\* the width of stream ids around every power of two
B_width ==
  LET W(top, sid) == [NetCfg(<<PLAIN, INTNAME, BYTENAME>>, <<[ind |-> 0, props |-> << <<1, top>>, <<2, 0>> >>]>>, << <<"new", 1, 0>>, <<"upd", 1, sid>>, <<"upd", 1, 0>> >>, GATES[1])
                      EXCEPT !.lean = TRUE]
  IN UNION { { W(t, t), W(t, 0) } : t \in (UNION { {Pow2(k) - 2, Pow2(k) - 1, Pow2(k), Pow2(k) + 1} : k \in 1..20 }) \ {0} }

Scenario ==
  CASE PROFILE = "b_attr" -> B_attr [] PROFILE = "b_attr0" -> B_attr0 [] PROFILE = "b_attrcut" -> B_attrcut [] PROFILE = "b_names" -> B_names
    [] PROFILE = "b_classes" -> B_classes [] PROFILE = "b_spawn" -> B_spawn [] PROFILE = "b_life" -> B_life [] PROFILE = "b_life1" -> B_life1 [] PROFILE = "b_ids" -> B_ids
    [] PROFILE = "b_frames" -> B_frames [] PROFILE = "b_prim" -> B_prim [] PROFILE = "b_primcut" -> B_primcut [] PROFILE = "b_spawncut" -> B_spawncut [] PROFILE = "b_text" -> B_text [] PROFILE = "b_props" -> B_props
    [] PROFILE = "b_ftext" -> B_ftext [] PROFILE = "b_bytes" -> B_bytes [] PROFILE = "b_lists" -> B_lists [] PROFILE = "b_arrays" -> B_arrays
    [] PROFILE = "b_sizes" -> B_sizes [] PROFILE = "b_filecut" -> B_filecut [] PROFILE = "b_policy" -> B_policy [] PROFILE = "b_nest" -> B_nest
    [] PROFILE = "b_inst" -> B_inst [] PROFILE = "b_alias" -> B_alias [] PROFILE = "b_longkind" -> B_longkind [] PROFILE = "b_longobj" -> B_longobj
    [] PROFILE = "b_again" -> B_again [] PROFILE = "b_againh" -> B_againh [] PROFILE = "b_resolve" -> B_resolve [] PROFILE = "b_width" -> B_width
    [] PROFILE = "b_near" -> B_near [] PROFILE = "b_nearnet" -> B_nearnet [] PROFILE = "b_place" -> B_place [] PROFILE = "b_placenet" -> B_placenet
    [] PROFILE = "b_kin" -> B_kin [] PROFILE = "b_scale" -> B_scale [] PROFILE = "b_crowd" -> B_crowd [] PROFILE = "b_body" -> B_body [] PROFILE = "b_vast" -> B_vast
IsFile == PROFILE \in {"b_props", "b_ftext", "b_bytes", "b_lists", "b_arrays", "b_sizes", "b_filecut", "b_policy", "b_nest", "b_longkind", "b_againh", "b_near", "b_place", "b_body", "b_vast"}
InitBfs == m \in { IF IsFile THEN FileMode(c) ELSE NetOnly(c) : c \in Part(Scenario) }
\* decoding ends, whatever the data
Spec == InitBfs /\ [][Next]_m /\ WF_m(Next)
Terminates == <>(m.stk = <<>>)

(* ----------------------------- static checks ----------------------------- *)
\* bounded integers: the encodings of all values below the bound are prefix free,
\* so decoding is unique, and every value below the bound has one
BitsOf(v, w) == [i \in 1..w |-> (v \div Pow2(i - 1)) % 2]
CodesFor(bits, max) == { BitsOf(v, MaxWidth(v, bits, max)) : v \in 0..TopOf(bits, max) }
PrefixFree(S) == \A a \in S, b \in S : a # b => ~IsPrefix(a, b)
ASSUME \A max \in 1..40 : LET bits == Max2(BitWidth(max), 1) - 1 IN PrefixFree(CodesFor(bits, max)) /\ TopOf(bits, max) >= max - 1
ASSUME PrefixFree(CodesFor(4, 20)) /\ PrefixFree(CodesFor(4, 22)) /\ PrefixFree(CodesFor(3, 14))
\* the class hierarchy is a forest
RECURSIVE Ancestors(_, _)
Ancestors(n, k) == IF n = "" \/ k = 0 THEN <<>> ELSE <<n>> \o Ancestors(ParentOf(n), k - 1)
ASSUME \A i \in 1..Len(CLASSNAMES) : Len(Ancestors(CLASSNAMES[i], 40)) < 40
ASSUME \A i \in 1..Len(ATTRNAMES) : ATTRS[ATTRNAMES[i]] \in ALLTAGS
=============================================================================
