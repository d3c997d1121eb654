------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* The wire grammar of network attributes.                                 *)
(*                                                                         *)
(* A layout is a sequence of grammar items that the machine in Boxcars.tla *)
(* interprets one at a time:                                               *)
(*   <<"T", token>>               emit a token, consume nothing            *)
(*   <<"R", w, kind, dom, lab>>   read w bits, emit them as a kind token   *)
(*   <<"X", w, dom, lab>>         read w bits and discard them             *)
(*   <<"R64", kind, lab>>         read a 64-bit word                       *)
(*   <<"opt", items, lab>>        one presence bit, then items or null     *)
(*   <<"max", bits, max, kind, dom, lab>>  bounded integer                 *)
(*   <<"vec", "f"|"i", lab>> <<"rot", lab>> <<"quat", lab>> <<"cquat", lab>>*)
(*   <<"bytes", n, lab>>  <<"text", lab>> (lab "": text's own labels)      *)
(*   and a few items whose continuation depends on a decoded value.        *)
(* `lab` names the component reported when the data runs out.              *)
(***************************************************************************)
EXTENDS Base

T(t)      == << <<"T", t>> >>
K(name)   == T(<<"k", name>>)
Open      == T(<<"{">>)
Close     == T(<<"}">>)
V(name)   == T(<<"V", name>>)
Obj(fs)   == Open \o Cat(fs) \o Close
Seqn(fs)  == T(<<"[">>) \o Cat(fs) \o T(<<"]">>)
F(name, items) == K(name) \o items

Bit(lab)    == << <<"R", 1, "b", "b", lab>> >>
U8(lab)     == << <<"R", 8, "i", "u8", lab>> >>
I32(lab)    == << <<"R", 32, "i", "i32", lab>> >>
Actor(lab)  == << <<"R", 32, "i", "actor", lab>> >>
U32(lab)    == << <<"R", 32, "u", "u32", lab>> >>
F32(lab)    == << <<"R", 32, "f", "f32", lab>> >>
Vec(lab)    == << <<"vec", "f", lab>> >>
VecI(lab)   == << <<"vec", "i", lab>> >>
Rot(lab)    == << <<"rot", lab>> >>
Skip(w, lab) == << <<"X", w, "u32", lab>> >>
Text        == << <<"text", "">> >>
AA(lab)     == Obj(<<F("active", Bit(lab)), F("actor", Actor(lab))>>)
Nul         == T(<<"n">>)
OptI(lab)   == << <<"opt", Actor(lab), lab>> >>

\* version gates: v is the triple <<major, minor, net>>
GE(v, a, b, c) ==
  \/ v[1] > a
  \/ v[1] = a /\ v[2] > b
  \/ v[1] = a /\ v[2] = b /\ v[3] >= c
NetV(v) == v[3]

ExplosionF(l) == <<F("flag", Bit(l)), F("actor", Actor(l)), F("location", Vec(l))>>

LoadoutItems(lab) == Open \o K("version") \o << <<"R", 8, "i", "loadver", lab>> >>
                       \o << <<"loadout", lab>> >>            \* continues on the version just read

\* the rest of a loadout of the given version
LoadoutRest(ver, l) ==
  Cat(<<F("body", U32(l)), F("decal", U32(l)), F("wheels", U32(l)), F("rocket_trail", U32(l)),
        F("antenna", U32(l)), F("topper", U32(l)), F("unknown1", U32(l)),
        F("unknown2", IF ver > 10 THEN U32(l) ELSE Nul),
        F("engine_audio", IF ver >= 16 THEN U32(l) ELSE Nul),
        F("trail", IF ver >= 16 THEN U32(l) ELSE Nul),
        F("goal_explosion", IF ver >= 16 THEN U32(l) ELSE Nul),
        F("banner", IF ver >= 17 THEN U32(l) ELSE Nul),
        F("product_id", IF ver >= 19 THEN U32(l) ELSE Nul),
        IF ver >= 22 THEN Skip(32, l) \o Skip(32, l) \o Skip(32, l) ELSE <<>>,
        Close>>)

UidItems == Open \o K("system_id") \o << <<"R", 8, "i", "sysid", "System id">> >> \o << <<"uid">> >>
\* the rest of a unique id with the given system id (0..255)
UidRest(sys, v) ==
  K("remote_id") \o
  (CASE sys = 0  -> V("SplitScreen") \o << <<"R", 24, "u", "u24", "SplitScreen">> >>
     [] sys = 1  -> V("Steam") \o << <<"R64", "q", "Steam">> >>
     [] sys = 2  -> << <<"ps4">> >>
     [] sys = 4  -> V("Xbox") \o << <<"R64", "q", "Xbox">> >>
     [] sys = 5  -> V("QQ") \o << <<"R64", "q", "QQ ID">> >>
     [] sys = 6  -> V("Switch") \o Obj(<<F("online_id", << <<"R64", "q", "Switch ID">> >>),
                                        F("unknown1", << <<"bytes", 24, "Switch ID Unknown">> >>)>>)
     [] sys = 7  -> V("PsyNet") \o Obj(<<F("online_id", << <<"R64", "q", "PsyNet ID">> >>),
                                        F("unknown1", IF NetV(v) < 10 THEN << <<"bytes", 24, "PsyNet ID Unknown">> >>
                                                      ELSE T(<<"[">>) \o T(<<"]">>))>>)
     [] sys = 11 -> V("Epic") \o Text
     [] OTHER    -> << <<"badid", sys>> >>)
  \o K("local_id") \o << <<"R", 8, "i", "u8", "UniqueId local_id">> >> \o Close

\* product lists: u8 count of (u8 count of product)
Products(lab) == << <<"plist", lab>> >>
ProductItems(lab) == Open \o K("unknown") \o Bit(lab) \o K("object_ind")
                       \o << <<"R", 32, "i", "prodobj", lab>> >> \o K("value") \o << <<"prodval", lab>> >> \o Close
\* value of a product whose object is of the given kind
ProductValue(kind, v, l) ==
  CASE kind = "color" ->
         IF GE(v, 868, 23, 8) THEN V("NewColor") \o U32(l)
         ELSE << <<"oldcolor", l>> >>
    [] kind = "paint" ->
         IF GE(v, 868, 18, 0) THEN V("NewPaint") \o << <<"R", 31, "u", "u31", l>> >>
         ELSE V("OldPaint") \o << <<"max", 3, 14, "u", "any", l>> >>
    [] kind = "title" -> V("Title") \o << <<"text", l>> >>
    [] kind = "special" -> V("SpecialEdition") \o << <<"R", 31, "u", "u31", l>> >>
    [] kind = "team" ->
         IF GE(v, 868, 18, 0) THEN V("NewTeamEdition") \o << <<"R", 31, "u", "u31", l>> >>
         ELSE V("OldTeamEdition") \o << <<"max", 3, 14, "u", "any", l>> >>
    [] OTHER -> T(<<"U", "Absent">>)

ALLTAGS == { "Boolean", "Byte", "AppliedDamage", "DamageState", "CamSettings", "ClubColors", "Demolish",
  "DemolishFx", "DemolishExtended", "Enum", "Explosion", "ExtendedExplosion", "FlaggedByte", "ActiveActor",
  "Float", "GameMode", "Int", "Int64", "Loadout", "TeamLoadout", "Location", "MusicStinger", "Pickup",
  "PickupNew", "PlayerHistoryKey", "QWordString", "Welded", "RigidBody", "Title", "TeamPaint", "String",
  "UniqueId", "Reservation", "PartyLeader", "PrivateMatchSettings", "LoadoutOnline", "LoadoutsOnline",
  "StatEvent", "RotationTag", "RepStatTitle", "PickupInfo", "Impulse", "ReplicatedBoost", "LogoData" }

Layout(tag, v, rl223) ==
  CASE tag = "Boolean" -> V("Boolean") \o Bit("Boolean")
    [] tag = "Byte" -> V("Byte") \o U8("Byte")
    [] tag = "AppliedDamage" ->
         LET l == "Applied Damage" IN V("AppliedDamage") \o
         Obj(<<F("id", U8(l)), F("position", Vec(l)), F("damage_index", I32(l)), F("total_damage", I32(l))>>)
    [] tag = "DamageState" ->
         LET l == "Damage State" IN V("DamageState") \o
         Obj(<<F("tile_state", U8(l)), F("damaged", Bit(l)), F("offender", Actor(l)), F("ball_position", Vec(l)),
               F("direct_hit", Bit(l)), F("unknown1", Bit(l))>>)
    [] tag = "CamSettings" ->
         LET l == "Cam Settings" IN V("CamSettings") \o
         Obj(<<F("fov", F32(l)), F("height", F32(l)), F("angle", F32(l)), F("distance", F32(l)),
               F("stiffness", F32(l)), F("swivel", F32(l)),
               F("transition", IF GE(v, 868, 20, 0) THEN F32(l) ELSE Nul)>>)
    [] tag = "ClubColors" ->
         LET l == "Club Colors" IN V("ClubColors") \o
         Obj(<<F("blue_flag", Bit(l)), F("blue_color", U8(l)), F("orange_flag", Bit(l)), F("orange_color", U8(l))>>)
    [] tag = "Demolish" ->
         LET l == "Demolish" IN V("Demolish") \o
         Obj(<<F("attacker_flag", Bit(l)), F("attacker", Actor(l)), F("victim_flag", Bit(l)), F("victim", Actor(l)),
               F("attack_velocity", Vec(l)), F("victim_velocity", Vec(l))>>)
    [] tag = "DemolishFx" ->
         LET l == "DemolishFx" IN V("DemolishFx") \o
         Obj(<<F("custom_demo_flag", Bit(l)), F("custom_demo_id", I32(l)),
               F("attacker_flag", Bit(l)), F("attacker", Actor(l)), F("victim_flag", Bit(l)), F("victim", Actor(l)),
               F("attack_velocity", Vec(l)), F("victim_velocity", Vec(l))>>)
    [] tag = "DemolishExtended" ->
         LET l == "DemolishExtended" IN V("DemolishExtended") \o
         Obj(<<F("attacker_pri", AA(l)), F("self_demo", AA(l)), F("self_demolish", Bit(l)),
               F("goal_explosion_owner", AA(l)), F("attacker", AA(l)), F("victim", AA(l)),
               F("attacker_velocity", Vec(l)), F("victim_velocity", Vec(l))>>)
    [] tag = "Enum" -> V("Enum") \o << <<"R", 11, "i", "u11", "Enum">> >>
    [] tag = "Explosion" -> V("Explosion") \o Obj(ExplosionF("Explosion"))
    [] tag = "ExtendedExplosion" ->
         LET l == "Extended Explosion" IN V("ExtendedExplosion") \o
         Obj(<<F("explosion", Obj(ExplosionF(l))), F("unknown1", Bit(l)), F("secondary_actor", Actor(l))>>)
    [] tag = "FlaggedByte" -> V("FlaggedByte") \o Seqn(<<Bit("FlaggedByte"), U8("FlaggedByte")>>)
    [] tag = "ActiveActor" -> V("ActiveActor") \o AA("Active Actor")
    [] tag = "Float" -> V("Float") \o F32("Float")
    [] tag = "GameMode" ->
         LET n == IF GE(v, 868, 12, 0) THEN 8 ELSE 2
         IN V("GameMode") \o Seqn(<<T(<<"i", n>>), << <<"R", n, "i", "u8", "Game Mode">> >> >>)
    [] tag = "Int" -> V("Int") \o I32("Int")
    [] tag = "Int64" -> V("Int64") \o << <<"R64", "Q", "Int64">> >>
    [] tag = "Loadout" -> V("Loadout") \o LoadoutItems("Loadout")
    [] tag = "TeamLoadout" -> V("TeamLoadout") \o Obj(<<F("blue", LoadoutItems("Team Loadout")),
                                                        F("orange", LoadoutItems("Team Loadout"))>>)
    [] tag = "Location" -> V("Location") \o Vec("Location")
    [] tag = "MusicStinger" ->
         LET l == "Music Stinger" IN V("MusicStinger") \o Obj(<<F("flag", Bit(l)), F("cue", U32(l)), F("trigger", U8(l))>>)
    [] tag = "Pickup" -> V("Pickup") \o Obj(<<F("instigator", OptI("Pickup")), F("picked_up", Bit("Pickup"))>>)
    [] tag = "PickupNew" -> V("PickupNew") \o Obj(<<F("instigator", OptI("PickupNew")), F("picked_up", U8("PickupNew"))>>)
    [] tag = "PlayerHistoryKey" -> V("PlayerHistoryKey") \o << <<"R", 14, "i", "u14", "PlayerHistoryKey">> >>
    [] tag = "QWordString" -> IF rl223 THEN V("String") \o Text ELSE V("QWord") \o << <<"R64", "q", "QWord">> >>
    [] tag = "Welded" ->
         LET l == "Welded" IN V("Welded") \o
         Obj(<<F("active", Bit(l)), F("actor", Actor(l)), F("offset", Vec(l)), F("mass", F32(l)), F("rotation", Rot(l))>>)
    [] tag = "RigidBody" ->
         LET l == "Rigid Body" IN V("RigidBody") \o
         Open \o K("sleeping") \o << <<"R", 1, "b", "ob", l>> >> \o << <<"rigid", l>> >>
    [] tag = "Title" ->
         LET l == "Title" IN V("Title") \o
         Seqn(<<Bit(l), Bit(l), U32(l), U32(l), U32(l), U32(l), U32(l), Bit(l)>>)
    [] tag = "TeamPaint" ->
         LET l == "Team Paint" IN V("TeamPaint") \o
         Obj(<<F("team", U8(l)), F("primary_color", U8(l)), F("accent_color", U8(l)),
               F("primary_finish", U32(l)), F("accent_finish", U32(l))>>)
    [] tag = "String" -> V("String") \o Text
    [] tag = "UniqueId" -> V("UniqueId") \o UidItems
    [] tag = "Reservation" ->
         V("Reservation") \o Open \o K("number") \o << <<"R", 3, "u", "any3", "Reservation">> >>
         \o K("unique_id") \o UidItems \o K("name") \o << <<"resname">> >>
         \o K("unknown1") \o Bit("Reservation") \o K("unknown2") \o Bit("Reservation")
         \o K("unknown3") \o (IF GE(v, 868, 12, 0) THEN << <<"R", 6, "i", "any6", "Reservation">> >> ELSE Nul) \o Close
    [] tag = "PartyLeader" -> V("PartyLeader") \o << <<"leader">> >>
    [] tag = "PrivateMatchSettings" ->
         LET l == "Private Match" IN V("PrivateMatch") \o
         Obj(<<F("mutators", Text), F("joinable_by", U32(l)), F("max_players", U32(l)), F("game_name", Text),
               F("password", Text), F("flag", Bit(l))>>)
    [] tag = "LoadoutOnline" -> V("LoadoutOnline") \o Products("Loadout Online")
    [] tag = "LoadoutsOnline" ->
         LET l == "Loadouts online" IN V("LoadoutsOnline") \o
         Obj(<<F("blue", Products(l)), F("orange", Products(l)), F("unknown1", Bit(l)), F("unknown2", Bit(l))>>)
    [] tag = "StatEvent" -> V("StatEvent") \o Obj(<<F("unknown1", Bit("Stat Event")), F("object_id", I32("Stat Event"))>>)
    [] tag = "RotationTag" -> V("Rotation") \o Rot("Rotation")
    [] tag = "RepStatTitle" ->
         LET l == "RepStatTitle" IN V("RepStatTitle") \o
         Obj(<<F("unknown", Bit(l)), F("name", Text), F("unknown2", Bit(l)), F("index", U32(l)), F("value", U32(l))>>)
    [] tag = "PickupInfo" ->
         LET l == "Pickup Info" IN V("PickupInfo") \o
         Obj(<<F("available_pickups", Seqn(<<AA(l), AA(l), AA(l)>>)), F("items_are_preview", Bit(l))>>)
    [] tag = "Impulse" -> V("Impulse") \o Obj(<<F("compressed_rotation", I32("Impulse")), F("speed", F32("Impulse"))>>)
    [] tag = "ReplicatedBoost" ->
         LET l == "ReplicatedBoost" IN V("ReplicatedBoost") \o
         Obj(<<F("grant_count", U8(l)), F("boost_amount", U8(l)), F("unused1", U8(l)), F("unused2", U8(l))>>)
    [] tag = "LogoData" -> V("LogoData") \o Obj(<<F("logo_id", U32("LogoData")), F("swap_colors", Bit("LogoData"))>>)

\* continuation of a rigid body once the sleeping flag is known
RigidRest(sleeping, v, l) ==
  Cat(<<F("location", Vec(l)),
        F("rotation", IF NetV(v) >= 7 THEN << <<"quat", l>> >> ELSE << <<"cquat", l>> >>),
        F("linear_velocity", IF sleeping THEN Nul ELSE Vec(l)),
        F("angular_velocity", IF sleeping THEN Nul ELSE Vec(l)),
        Close>>)
=============================================================================
