//! Real results as tokens, field by field.
use crate::tok::Tok;
use boxcars::*;

pub type Out = Vec<Tok>;
pub trait Flat {
    fn flat(&self, o: &mut Out);
}
macro_rules! ints { ($($t:ty),*) => { $(impl Flat for $t { fn flat(&self, o: &mut Out) { o.push(Tok::I(*self as i128)) } })* } }
ints!(u8, u16, u32, i8, i32);
thread_local! {
    /// look through the public accessors and conversions instead of the fields
    static ACCESS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn access() -> bool {
    ACCESS.with(|a| a.get())
}
/// tokens as seen through accessors and conversions
pub fn accessed<T>(f: impl FnOnce() -> T) -> T {
    ACCESS.with(|a| a.set(true));
    let r = f();
    ACCESS.with(|a| a.set(false));
    r
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
macro_rules! idcheck { ($t:ident, $x:expr, $o:expr) => { {
    let (x, i): (i32, $t) = ($x, $t($x));
    let near = [x.wrapping_sub(1), x.wrapping_add(1), !x, x ^ i32::MIN, 0, i32::MIN, i32::MAX];
    let order = near.iter().all(|&y| i.cmp(&$t(y)) == x.cmp(&y) && i.partial_cmp(&$t(y)) == Some(x.cmp(&y)) && (i == $t(y)) == (x == y));
    let copy = i.clone();
    if i32::from(i) != x || usize::from(i) != x as usize || i.to_string() != x.to_string() || !order || copy != i || hash(&copy) != hash(&$t(x)) {
        $o.push(Tok::U(format!("conversions of {} {x} disagree: {} {}", stringify!($t), usize::from(i), i)));
    }
} } }
/// every kind of id, for the id and its surroundings
fn idchecks(x: i32, o: &mut Out) {
    for x in [x, x.wrapping_neg(), !x, x ^ i32::MIN] {
        idcheck!(ActorId, x, o);
        idcheck!(ObjectId, x, o);
        idcheck!(StreamId, x, o);
    }
}
macro_rules! ids { ($($t:ident),*) => { $(impl Flat for $t { fn flat(&self, o: &mut Out) {
    if !access() {
        return o.push(Tok::I(self.0 as i128));
    }
    let x = i32::from(*self);
    o.push(Tok::I(x as i128));
    idchecks(x, o);
} })* } }
ids!(ActorId, ObjectId, StreamId);
impl Flat for bool {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::B(*self))
    }
}
impl Flat for f32 {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::F(self.to_bits()))
    }
}
impl Flat for u64 {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::Q(*self))
    }
}
impl Flat for i64 {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::QI(*self))
    }
}
impl Flat for String {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::S(self.clone()))
    }
}
impl<T: Flat> Flat for Option<T> {
    fn flat(&self, o: &mut Out) {
        match self {
            None => o.push(Tok::Null),
            Some(x) => x.flat(o),
        }
    }
}
impl<T: Flat> Flat for Box<T> {
    fn flat(&self, o: &mut Out) {
        (**self).flat(o)
    }
}
impl<T: Flat> Flat for [T] {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::Arr);
        for x in self {
            x.flat(o);
        }
        o.push(Tok::EndArr)
    }
}
impl<T: Flat> Flat for Vec<T> {
    fn flat(&self, o: &mut Out) {
        self.as_slice().flat(o)
    }
}
pub fn key(o: &mut Out, k: &str) {
    o.push(Tok::K(k.to_string()))
}
macro_rules! obj {
    ($t:ty: $($f:ident),*) => {
        impl Flat for $t {
            fn flat(&self, o: &mut Out) {
                o.push(Tok::Open);
                $( key(o, stringify!($f)); self.$f.flat(o); )*
                o.push(Tok::Close);
            }
        }
    };
}
obj!(Vector3f: x, y, z);
obj!(Vector3i: x, y, z);
obj!(Rotation: yaw, pitch, roll);
impl Flat for Quaternion {
    fn flat(&self, o: &mut Out) {
        o.push(Tok::Quat([self.x, self.y, self.z, self.w]))
    }
}
obj!(ActiveActor: active, actor);
obj!(CamSettings: fov, height, angle, distance, stiffness, swivel, transition);
obj!(ClubColors: blue_flag, blue_color, orange_flag, orange_color);
obj!(AppliedDamage: id, position, damage_index, total_damage);
obj!(DamageState: tile_state, damaged, offender, ball_position, direct_hit, unknown1);
obj!(Demolish: attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity);
obj!(DemolishExtended: attacker_pri, self_demo, self_demolish, goal_explosion_owner, attacker, victim, attacker_velocity, victim_velocity);
obj!(DemolishFx: custom_demo_flag, custom_demo_id, attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity);
obj!(Explosion: flag, actor, location);
obj!(ExtendedExplosion: explosion, unknown1, secondary_actor);
obj!(Loadout: version, body, decal, wheels, rocket_trail, antenna, topper, unknown1, unknown2, engine_audio, trail, goal_explosion, banner, product_id);
obj!(TeamLoadout: blue, orange);
obj!(StatEvent: unknown1, object_id);
obj!(MusicStinger: flag, cue, trigger);
obj!(Pickup: instigator, picked_up);
obj!(PickupNew: instigator, picked_up);
obj!(Welded: active, actor, offset, mass, rotation);
obj!(TeamPaint: team, primary_color, accent_color, primary_finish, accent_finish);
obj!(RigidBody: sleeping, location, rotation, linear_velocity, angular_velocity);
obj!(UniqueId: system_id, remote_id, local_id);
obj!(PsyNetId: online_id, unknown1);
obj!(SwitchId: online_id, unknown1);
obj!(Ps4Id: online_id, name, unknown1);
obj!(Reservation: number, unique_id, name, unknown1, unknown2, unknown3);
obj!(PrivateMatchSettings: mutators, joinable_by, max_players, game_name, password, flag);
obj!(Product: unknown, object_ind, value);
obj!(LoadoutsOnline: blue, orange, unknown1, unknown2);
obj!(RepStatTitle: unknown, name, unknown2, index, value);
obj!(PickupInfo: available_pickups, items_are_preview);
obj!(Impulse: compressed_rotation, speed);
obj!(ReplicatedBoost: grant_count, boost_amount, unused1, unused2);
obj!(LogoData: logo_id, swap_colors);
obj!(Trajectory: location, rotation);
obj!(NewActor: actor_id, name_id, object_id, initial_trajectory);
obj!(UpdatedAttribute: actor_id, stream_id, object_id, attribute);
obj!(Frame: time, delta, new_actors, deleted_actors, updated_actors);
fn var(o: &mut Out, n: &str) {
    o.push(Tok::V(n.to_string()))
}
macro_rules! variants {
    ($self:expr, $o:expr, $e:ident: $($v:ident),* ; $($rest:tt)*) => {
        match $self { $( $e::$v(x) => { var($o, stringify!($v)); x.flat($o) } )* $($rest)* }
    };
}
impl Flat for RemoteId {
    fn flat(&self, o: &mut Out) {
        variants!(self, o, RemoteId: PlayStation, PsyNet, SplitScreen, Steam, Switch, Xbox, QQ, Epic;)
    }
}
impl Flat for ProductValue {
    fn flat(&self, o: &mut Out) {
        variants!(self, o, ProductValue: OldColor, NewColor, OldPaint, NewPaint, Title, SpecialEdition, OldTeamEdition, NewTeamEdition;
            ProductValue::NoColor => o.push(Tok::U("NoColor".into())),
            ProductValue::Absent => o.push(Tok::U("Absent".into())),)
    }
}
impl Flat for Attribute {
    fn flat(&self, o: &mut Out) {
        variants!(self, o, Attribute: Boolean, Byte, AppliedDamage, DamageState, CamSettings, ClubColors, Demolish, DemolishExtended, DemolishFx,
            Enum, Explosion, ExtendedExplosion, ActiveActor, Float, Int, Int64, Loadout, TeamLoadout, Location, MusicStinger,
            PlayerHistoryKey, Pickup, PickupNew, QWord, Welded, TeamPaint, RigidBody, String, UniqueId, Reservation, PartyLeader,
            PrivateMatch, LoadoutOnline, LoadoutsOnline, StatEvent, Rotation, RepStatTitle, PickupInfo, Impulse, ReplicatedBoost, LogoData;
            Attribute::FlaggedByte(a, b) => { var(o, "FlaggedByte"); o.push(Tok::Arr); a.flat(o); b.flat(o); o.push(Tok::EndArr) }
            Attribute::GameMode(a, b) => { var(o, "GameMode"); o.push(Tok::Arr); a.flat(o); b.flat(o); o.push(Tok::EndArr) }
            Attribute::Title(a, b, c, d, e, f, g, h) => {
                var(o, "Title"); o.push(Tok::Arr);
                a.flat(o); b.flat(o); c.flat(o); d.flat(o); e.flat(o); f.flat(o); g.flat(o); h.flat(o);
                o.push(Tok::EndArr)
            }
        )
    }
}

obj!(TickMark: description, frame);
obj!(KeyFrame: time, frame, position);
obj!(DebugInfo: frame, user, text);
obj!(ClassIndex: class, index);
obj!(CacheProp: object_ind, stream_id);
obj!(ClassNetCache: object_ind, parent_id, cache_id, properties);
fn props(o: &mut Out, ps: &[(String, HeaderProp)]) {
    o.push(Tok::Open);
    for (k, v) in ps {
        key(o, k);
        v.flat(o);
    }
    o.push(Tok::Close);
}
/// exactly the accessor of the property's kind has a value, and that value stands for the property
fn through_accessors(p: &HeaderProp, o: &mut Out) {
    let some = [p.as_array().is_some(), p.as_bool().is_some(), p.is_byte(), p.as_float().is_some(), p.as_i32().is_some(), p.as_u64().is_some(), p.as_string().is_some()];
    let want = match p {
        HeaderProp::Array(_) => 0,
        HeaderProp::Bool(_) => 1,
        HeaderProp::Byte { .. } => 2,
        HeaderProp::Float(_) => 3,
        HeaderProp::Int(_) => 4,
        HeaderProp::QWord(_) => 5,
        HeaderProp::Name(_) | HeaderProp::Str(_) => 6,
        HeaderProp::Struct { .. } => 7,
    };
    for (i, s) in some.iter().enumerate() {
        if *s != (i == want) {
            o.push(Tok::U(format!("accessor {i} of {p:?} has a value: {s}")));
        }
    }
    if let Some(x) = p.as_array() {
        o.push(Tok::Arr);
        for x in x {
            props(o, x);
        }
        o.push(Tok::EndArr)
    }
    p.as_bool().iter().for_each(|x| x.flat(o));
    p.as_float().iter().for_each(|x| x.flat(o));
    p.as_i32().iter().for_each(|x| x.flat(o));
    p.as_u64().iter().for_each(|x| x.flat(o));
    p.as_string().iter().for_each(|x| x.to_string().flat(o));
}
impl Flat for HeaderProp {
    fn flat(&self, o: &mut Out) {
        if access() && !matches!(self, HeaderProp::Byte { .. } | HeaderProp::Struct { .. }) {
            let d = format!("{self:?}");
            o.push(Tok::H(d.split('(').next().unwrap_or("").to_string()));
            return through_accessors(self, o);
        }
        if access() {
            through_accessors(self, &mut *o);
        }
        let h = |o: &mut Out, n: &str| o.push(Tok::H(n.into()));
        match self {
            HeaderProp::Array(xs) => {
                h(o, "Array");
                o.push(Tok::Arr);
                for x in xs {
                    props(o, x);
                }
                o.push(Tok::EndArr)
            }
            HeaderProp::Bool(b) => {
                h(o, "Bool");
                b.flat(o)
            }
            HeaderProp::Byte { kind, value } => {
                h(o, "Byte");
                o.push(Tok::Open);
                key(o, "kind");
                kind.flat(o);
                key(o, "value");
                value.flat(o);
                o.push(Tok::Close)
            }
            HeaderProp::Float(f) => {
                h(o, "Float");
                f.flat(o)
            }
            HeaderProp::Int(i) => {
                h(o, "Int");
                i.flat(o)
            }
            HeaderProp::Name(s) => {
                h(o, "Name");
                s.flat(o)
            }
            HeaderProp::QWord(q) => {
                h(o, "QWord");
                q.flat(o)
            }
            HeaderProp::Str(s) => {
                h(o, "Str");
                s.flat(o)
            }
            HeaderProp::Struct { name, fields } => {
                h(o, "Struct");
                o.push(Tok::Open);
                key(o, "name");
                name.flat(o);
                key(o, "fields");
                props(o, fields);
                o.push(Tok::Close)
            }
        }
    }
}
/// everything but the network frames
pub fn file_toks(r: &Replay) -> Out {
    let mut out = vec![Tok::Open];
    let o = &mut out;
    macro_rules! f { ($($n:ident),*) => { $( key(o, stringify!($n)); r.$n.flat(o); )* } }
    f!(header_size, header_crc, major_version, minor_version, net_version, game_type);
    key(o, "properties");
    props(o, &r.properties);
    f!(content_size, content_crc, levels, keyframes, debug_info, tick_marks, packages, objects, names, class_indices, net_cache);
    out.push(Tok::Close);
    out
}
pub fn frames_toks(fs: &[Frame]) -> Out {
    let mut o = vec![];
    for f in fs {
        f.flat(&mut o);
    }
    o
}
