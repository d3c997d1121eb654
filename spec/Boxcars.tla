------------------------------ MODULE Boxcars ------------------------------
(***************************************************************************)
(* A replay decoder as a state machine over an input it discovers lazily.  *)
(*                                                                         *)
(* The machine is a pushdown transducer: a stack of grammar items (see     *)
(* Layouts.tla and the file grammar below), a bit position, and the token  *)
(* stream describing what has been decoded.  Each step interprets the item *)
(* on top of the stack.  Where an item reads input, the value comes from   *)
(* the environment operators below: either any value the environment       *)
(* offers (then the machine defines the set of all replays together with   *)
(* their meaning), or the one value found in given bytes (then it is an    *)
(* oracle for those bytes).  `lim` is where the readable data ends; a read *)
(* that does not fit is the only way data can run out.                     *)
(*                                                                         *)
(* State `m`, a record:                                                    *)
(*   cfg   scenario chosen at the start; never changes                     *)
(*   stk   grammar items still to interpret, top first                     *)
(*   reg   "file" | "net": which region is being read                      *)
(*   pos, lim, base   bit position and end of region, and its offset;      *)
(*         lim = BIG while the end is undecided, min = how far it is known   *)
(*         to be at least                                                    *)
(*   wire  what was read, in order (empty when the bytes are given)        *)
(*   fwire, fout, flim  wire, tokens and end of the file region, once the  *)
(*         network region is being read                                      *)
(*   out   tokens emitted so far (file content, or the part of a frame     *)
(*         being decoded);  v, s  last number / code sequence read         *)
(*   d     what the file sections established (versions, lists, labels)    *)
(*   n     network state: actors, current frame, completed frames          *)
(*   net   resolved network set-up (classes, widths, versions)             *)
(*   stage "pre-h" "h" "pre-b" "b" "net" "done": how far the file got      *)
(*   err   <<"none">>, or the file-level error                             *)
(*   nres  <<"none">>, <<"ok">> or the network error                       *)
(***************************************************************************)
EXTENDS Resolve, Layouts

CONSTANTS Vals(_, _, _),      \* (m, width, domain): words offered for a fixed width read
          MaxVals(_, _, _, _),\* (m, domain, bits, max): values offered for a bounded read
          ByteVals(_, _, _),  \* (m, count, domain): byte strings
          TextVals(_, _, _),  \* (m, kind, domain): [sz, bs, rep] for kind "str" "text" "net"
          CrcVals(_, _),      \* (m, section): is the stored checksum right? [good, v]
          Cuts(_, _),         \* (m, width): ends of data that make a read of `width` bits fail
          Closes(_),          \* (m): where the network data may be declared to end
          Repeats(_, _)       \* (m, level): how often the last frame, actor, update or header property may recur

VARIABLE m

KEY_NONE   == Codes("None")
S_BOOL     == Codes("BoolProperty")
S_BYTE     == Codes("ByteProperty")
S_ARRAY    == Codes("ArrayProperty")
S_FLOAT    == Codes("FloatProperty")
S_INT      == Codes("IntProperty")
S_QWORD    == Codes("QWordProperty")
S_NAME     == Codes("NameProperty")
S_STR      == Codes("StrProperty")
S_STRUCT   == Codes("StructProperty")
K_NUMFRAMES == Codes("NumFrames")
K_MAXCHANNELS == Codes("MaxChannels")
K_MATCHTYPE == Codes("MatchType")
K_BUILD    == Codes("BuildVersion")
LOOKUPS    == {K_NUMFRAMES, K_MAXCHANNELS, K_MATCHTYPE, K_BUILD}
S_LAN      == Codes("Lan")
RL223      == Codes("221120.42953.406184")

MAX_LIST  == 25000
MAX_TEXT  == 10000
MAX_NETTEXT == 1024
MAX_DEPTH == 64

NoFn == [x \in {} |-> 0]
\* where the last frame, actor, update or property began
NOMARK == [w |-> -1, p |-> 0, t |-> <<>>, a |-> <<>>]
D0 == [hs |-> 0, major |-> 0, minor |-> 0, netv |-> 0, hasnet |-> FALSE, sec |-> "", gtype |-> <<>>,
       hgood |-> TRUE, bgood |-> TRUE, exact |-> FALSE, mark |-> NOMARK, look |-> NoFn, objs |-> <<>>, caches |-> <<>>, netpos |-> 0, netlen |-> 0, hend |-> 0, skip |-> 0]
N0 == [fr |-> 0, frames |-> <<>>, nw |-> <<>>, dl |-> <<>>, up |-> <<>>, actors |-> NoFn,
       aid |-> 0, obj |-> 0, sid |-> 0, aobj |-> 0, inattr |-> FALSE, cache |-> NoFn, time |-> 0, delta |-> 0,
       lasttime |-> 0, lastdelta |-> 0, lastup |-> <<"none">>, lastnew |-> <<"none">>, retrace |-> <<"none">>,
       name |-> <<"n">>, hist |-> <<>>, times |-> <<>>, ends |-> <<>>, retframe |-> 0, visits |-> 0,
       fmark |-> NOMARK, amark |-> NOMARK, pmark |-> NOMARK, extra |-> 0]
\* a size field standing for the true size of the section, whatever it turns out to be
EXACT == 1000000007

(* ------------------------------ plumbing ------------------------------ *)
Given(x) == x.cfg.src = "given"
Adv(x, w, v) == [x EXCEPT !.pos = @ + w, !.v = v,
                          !.wire = IF Given(x) THEN @ ELSE Append(@, <<"w", w, v>>)]
AdvBytes(x, bs, rep) ==
  [x EXCEPT !.pos = @ + 8 * Len(bs) * rep,
            !.wire = IF Given(x) THEN @ ELSE Append(@, <<"B", rep, bs>>)]
Emit(x, ts) == [x EXCEPT !.out = @ \o ts]
Push(x, items) == [x EXCEPT !.stk = items \o @]
Rem(x) == x.lim - x.pos
RemBytes(x) == Rem(x) \div 8
\* the data reaches at least `bits` further
Atleast(x, bits) == IF Given(x) THEN x ELSE [x EXCEPT !.min = Max2(@, x.pos + bits)]
\* ends of data for which the next `w` bits are not all there
Ends(x, w) == IF x.lim < BIG THEN (IF Rem(x) < w THEN {x.lim} ELSE {}) ELSE Cuts(x, w)
Fits(x, w) == Rem(x) >= w
\* settle where the data ends, shortly after what is known to exist
Ended(x) == IF x.lim < BIG THEN x ELSE [x EXCEPT !.lim = 8 * CeilDiv(Max2(x.pos, x.min), 8) + 24]
EndAt(x, l) == [x EXCEPT !.lim = l]
Note(x, e) == IF Given(x) THEN x ELSE [x EXCEPT !.n.hist = Append(@, e)]

Tok(kind, v) == <<kind, v>>

(* ------------------------------- errors ------------------------------- *)
\* file errors: `lab` names an inner label, d.sec the enclosing section
FileErr(x, lab, e) ==
  LET at == x.pos \div 8
      \* an offset is a 32 bit number: past that, the largest
      off == IF at > MAX32 - x.d.skip THEN MAX32 ELSE at + x.d.skip
      e1 == IF lab = "" THEN e ELSE <<"P", lab, off, e>>
      e2 == IF x.d.sec = "" THEN e1 ELSE <<"P", x.d.sec, off, e1>>
  IN [x EXCEPT !.err = e2, !.stk = <<>>]
\* what the last actor activity is reported as: updates come with the class the
\* actor has when the error is reported, or -1
Known(x, act) == IF act[1] = "upd" THEN Append(act, IF act[2] \in DOMAIN x.n.actors THEN x.n.actors[act[2]].obj ELSE -1) ELSE act
Activity(x) == Known(x, IF x.n.lastup # <<"none">> THEN x.n.lastup ELSE x.n.lastnew)
\* and, when the current frame has none, the latest frame that has some
Retrace(x) ==
  IF x.n.lastup # <<"none">> \/ x.n.lastnew # <<"none">> \/ x.n.retrace = <<"none">> THEN <<"none">>
  ELSE <<x.n.retframe, Known(x, x.n.retrace)>>
NetErr(x, e) ==
  [x EXCEPT !.stk = <<>>,
     !.nres = <<"err", e, x.n.fr, x.n.lasttime, x.n.lastdelta, Activity(x), Retrace(x)>>]
\* failure while decoding an attribute names actor, class and stream as well
AttrErr(x, e) == NetErr(x, IF x.n.inattr THEN <<"Attr", x.n.aid, x.n.obj, x.n.sid, e>> ELSE e)
NotEnough(x, lab) == AttrErr(x, <<"NotEnough", lab>>)
FailRead(x, bytes, lab) ==
  IF x.reg = "net" THEN NotEnough(x, lab)
  ELSE LET y == Ended(x) IN FileErr(y, lab, <<"Ins", bytes, RemBytes(y)>>)

(* ---------------------------- reading steps --------------------------- *)
\* one fixed-width read; Cont continues with the advanced machine and the value
Read(x, w, dom, lab, Cont(_, _)) ==
  \/ /\ Fits(x, w)
     /\ \E v \in Vals(x, w, dom) : m' = Cont(Adv(x, w, v), v)
  \/ \E l \in Ends(x, w) : m' = FailRead(EndAt(x, l), CeilDiv(w, 8), lab)

Read64(x, lab, Cont(_, _, _)) ==
  \/ /\ Fits(x, 64)
     /\ \E lo \in Vals(x, 32, "u32") : \E hi \in Vals(Adv(x, 32, lo), 32, "u32") :
          m' = Cont(Adv(Adv(x, 32, lo), 32, hi), lo, hi)
  \/ \E l \in Ends(x, 64) : m' = FailRead(EndAt(x, l), 8, lab)

\* Bounded integers: `bits` low bits, and a further bit exactly when it could
\* still matter, that is when low + 2^bits < max (max may exceed 31 bits).
MaxWidth(v, bits, max) ==
  IF bits >= 31 THEN (IF v < 0 THEN 32 ELSE IF ULess(v + MIN32, max) THEN 32 ELSE 31)
  ELSE IF v >= Pow2(bits) THEN bits + 1
  ELSE IF v + Pow2(bits) >= max THEN bits ELSE bits + 1
\* `need` bits must be there before the read is attempted at all
ReadMax(x, bits, max, dom, lab, need, Cont(_, _)) ==
  \/ /\ Fits(x, need)
     /\ \E v \in MaxVals(x, dom, bits, max) :
          LET w == MaxWidth(v, bits, max)
              y == Atleast(x, need)
          IN \/ Fits(y, w) /\ m' = Cont(Adv(y, w, v), v)
             \* the low bits that are still there belong to the value
             \/ \E l \in Ends(y, w) : m' = NotEnough([EndAt(Adv(y, w, v), l) EXCEPT !.pos = y.pos], lab)
  \/ \E l \in Ends(x, need) : m' = NotEnough(EndAt(x, l), lab)

\* vector: size (bounded by 20 or 22), then three biased components of size + 2 bits
VecMax(x) == IF NetV(x.net.ver) >= 7 THEN 22 ELSE 20
ReadVec(x, kind, lab) ==
  \/ /\ Fits(x, 5)
     /\ \E s \in MaxVals(x, "vecsize", 4, VecMax(x)) :
          LET w0 == MaxWidth(s, 4, VecMax(x))
              w  == s + 2
              bias == Pow2(s + 1)
              y  == Atleast(x, 5)
              x0 == Adv(y, w0, s)
              tk(v) == IF kind = "i" THEN <<"i", v - bias>> ELSE <<"v", v - bias>>
          IN \/ /\ Fits(y, w0 + 3 * w)
                /\ \E a \in Vals(x0, w, "vec") : \E b \in Vals(Adv(x0, w, a), w, "vec") :
                   \E c \in Vals(Adv(Adv(x0, w, a), w, b), w, "vec") :
                   m' = Emit(Adv(Adv(Adv(x0, w, a), w, b), w, c),
                             << <<"{">>, <<"k", "x">>, tk(a), <<"k", "y">>, tk(b), <<"k", "z">>, tk(c), <<"}">> >>)
             \/ \E l \in Ends(x0, 3 * w) : m' = NotEnough(EndAt(x0, l), lab)
  \/ \E l \in Ends(x, 5) : m' = NotEnough(EndAt(x, l), lab)

I8(v) == IF v >= 128 THEN v - 256 ELSE v
ROTITEMS(lab) ==
  << <<"T", <<"{">> >>, <<"T", <<"k", "yaw">> >>, <<"opt", << <<"R", 8, "i8", "u8", lab>> >>, lab>>,
     <<"T", <<"k", "pitch">> >>, <<"opt", << <<"R", 8, "i8", "u8", lab>> >>, lab>>,
     <<"T", <<"k", "roll">> >>, <<"opt", << <<"R", 8, "i8", "u8", lab>> >>, lab>>, <<"T", <<"}">> >> >>

\* text in the file: a signed count of units, then the bytes
TextCodes(sz, bs, rep) ==
  IF sz < 0 THEN Utf16(DropLast(bs, 2)) ELSE Win1252(DropLast(bs, 1))
TextTok(r) ==
  IF r.rep <= 1 THEN <<"s", TextCodes(r.sz, r.bs, 1)>>
  ELSE IF r.sz < 0 THEN <<"s*", r.rep - 1, Units(r.bs)[1]>>      \* bs is one unit, repeated
  ELSE <<"s*", r.rep - 1, Cp1252(r.bs[1])>>
UnitBytes(sz) == IF sz < 0 THEN -2 * sz ELSE sz

Codes1(t) == IF t[1] = "s" THEN t[2] ELSE <<>>

\* bytes the environment has for a text; fewer than announced means the data ends before
Supplied(r) == Len(r.bs) * r.rep
\* length-prefixed text as a value; Cont gets the machine and the token
ReadText(x, lab, dom, Cont(_, _)) ==
  \/ /\ Fits(x, 32)
     /\ \E r \in TextVals(x, "text", dom) :
          LET x1 == Adv(x, 32, r.sz)
              u  == UnitBytes(r.sz)
          IN IF r.sz > MAX_TEXT \/ r.sz < -MAX_TEXT THEN m' = FileErr(x1, lab, <<"TTL", r.sz>>)
             ELSE \/ Supplied(r) = u /\ Fits(x1, 8 * u) /\ m' = Cont(AdvBytes(x1, r.bs, r.rep), TextTok(r))
                  \/ \E l \in Ends(x1, 8 * u) : m' = FailRead(EndAt(x1, l), u, lab)
  \/ \E l \in Ends(x, 32) : m' = FailRead(EndAt(x, l), 4, lab)
\* length-prefixed UTF-8; the count is not limited, a negative one can never fit
ReadStr(x, lab, dom, Cont(_, _)) ==
  \/ /\ Fits(x, 32)
     /\ \E r \in TextVals(x, "str", dom) :
          LET x1 == Adv(x, 32, r.sz)
              x2 == AdvBytes(x1, r.bs, 1)
              u  == Utf8(DropLast(r.bs, 1))
          IN IF r.sz < 0 \/ Supplied(r) # r.sz THEN m' = FailRead(x1, r.sz, lab)
             ELSE \/ /\ Fits(x1, 8 * r.sz)
                     /\ IF u.ok THEN m' = Cont(x2, u.codes) ELSE m' = FileErr(x2, lab, <<"Utf8", u.upto>>)
                  \/ \E l \in Ends(x1, 8 * r.sz) : m' = FailRead(EndAt(x1, l), r.sz, lab)
  \/ \E l \in Ends(x, 32) : m' = FailRead(EndAt(x, l), 4, lab)
\* network text: zero length allowed, at most MAX_NETTEXT bytes
NetTextTok(r) == IF r.sz = 0 THEN <<"s", <<>>>> ELSE TextTok(r)
ReadNetText(x, lab) ==
  LET fail(y, e) == IF lab # "" THEN NotEnough(y, lab) ELSE AttrErr(y, e)
  IN \/ /\ Fits(x, 32)
        /\ \E r \in TextVals(x, "net", "nettext") :
             LET x1 == Adv(x, 32, r.sz)
                 u  == UnitBytes(r.sz)
             IN IF r.sz > MAX_NETTEXT \/ r.sz < -(MAX_NETTEXT \div 2)
                THEN m' = fail(x1, <<"TooBig", r.sz>>)
                ELSE \/ Supplied(r) = u /\ Fits(x1, 8 * u) /\ m' = Emit(AdvBytes(x1, r.bs, r.rep), <<NetTextTok(r)>>)
                     \/ \E l \in Ends(x1, 8 * u) : m' = fail(EndAt(x1, l), <<"TooBig", r.sz>>)
     \/ \E l \in Ends(x, 32) : m' = fail(EndAt(x, l), <<"NotEnough", "text string">>)

ReadBytes(x, k, dom, lab, Cont(_, _)) ==
  \/ /\ Fits(x, 8 * k)
     /\ \E bs \in ByteVals(x, k, dom) : m' = Cont(AdvBytes(x, bs, 1), bs)
  \/ \E l \in Ends(x, 8 * k) : m' = FailRead(EndAt(x, l), k, lab)

(* --------------------- network set-up and frames ---------------------- *)
PropOf(look, k) == IF k \in DOMAIN look THEN look[k] ELSE <<"none">>
IsStr(p) == p[1] = "Str" \/ p[1] = "Name"

\* everything the frame stream needs, from header properties and footer lists
Setup(ver, look, objs, caches) ==
  LET idx == Index(objs)
      mc  == PropOf(look, K_MAXCHANNELS)
      nf  == PropOf(look, K_NUMFRAMES)
      max == IF mc[1] = "Int" THEN mc[2] ELSE 1023
      mt  == PropOf(look, K_MATCHTYPE)
      bv  == PropOf(look, K_BUILD)
  IN [ver |-> ver, objs |-> objs, idx |-> idx,
      caches |-> caches,
      chmax |-> max, chbits |-> Max2(BitWidth(max), 1) - 1,
      hasnf |-> nf[1] = "Int", nf |-> IF nf[1] = "Int" THEN nf[2] ELSE 0,
      lan |-> IsStr(mt) /\ mt[2] = S_LAN,
      rl223 |-> IsStr(bv) /\ LexGE(bv[2], RL223)]

\* enter the network region (lim must be the size of the network data in bits)
NetStart(x, ver, look, objs, caches, lim) ==
  LET bad == BadProp(objs, caches)
      su  == Setup(ver, look, objs, caches)
      x1  == [x EXCEPT !.reg = "net", !.pos = 0, !.lim = lim, !.min = 0, !.stage = "net", !.n = N0, !.stk = <<>>]
  IN IF bad # <<>> THEN [x1 EXCEPT !.nres = <<"seterr", <<"StreamIndex", bad[2], bad[1]>>>>]
     ELSE LET x2 == [x1 EXCEPT !.net = su] IN
          IF ~su.hasnf THEN [x2 EXCEPT !.nres = <<"ok">>]
          ELSE IF su.nf < 0 \/ (lim < BIG /\ su.nf > lim \div 8)
               THEN [x2 EXCEPT !.nres = <<"seterr", <<"TooManyFrames", su.nf>>>>]
          ELSE Push(x2, << <<"frame">> >>)

Finish(x) == [x EXCEPT !.nres = <<"ok">>, !.stk = <<>>]

\* Deviation kept from the implementation: low ids stay addressable after a
\* deletion, so a late update still decodes with the class of the last spawn.
SLOTS == 200

(* ------------------------------ repetition ---------------------------- *)
(* A macro step: what was just read may be read k more times, when reading *)
(* it leaves everything that later reads depend on as it was.  It stands   *)
(* for k iterations, so that the counts that matter to an implementation   *)
(* (a byte, 16 bits) are within reach of an exhaustive search.             *)
Marked(mk) == mk.w >= 0
Span(x, mk) == x.pos - mk.p
\* the input side: k copies of what was read since the mark
Recur(x, mk, k) ==
  [x EXCEPT !.pos = @ + k * Span(x, mk), !.min = IF @ > 0 THEN @ + k * Span(x, mk) ELSE 0,
            !.wire = Append(@, <<"*", k, SubSeq(@, mk.w + 1, Len(@))>>)]
\* the output side: the tokens since the mark, k more times
More(toks, from, k) ==
  IF from = Len(toks) THEN toks ELSE Append(toks, <<"*", k, SubSeq(toks, from + 1, Len(toks))>>)
RecurFrame(x, k) ==
  LET mk == x.n.fmark  per == Span(x, mk) IN
  IF k = 0 THEN x
  ELSE [Recur(x, mk, k) EXCEPT
          !.n.frames = More(@, mk.t[1], k), !.n.fr = @ + k, !.n.extra = @ + k - 1,
          !.n.times = Append(@, @[Len(@)]),
          !.n.ends = Append(@, <<@[Len(@)][1] + per, @[Len(@)][2] + per, k, per>>),
          !.n.hist = Append(@, <<"again", "frame", k>>),
          !.n.retframe = IF x.n.retrace # <<"none">> /\ @ = x.n.fr - 1 THEN @ + k ELSE @]
RecurActor(x, k) ==
  LET mk == x.n.amark IN
  IF k = 0 THEN x
  ELSE [Recur(x, mk, k) EXCEPT !.n.nw = More(@, mk.t[1], k), !.n.dl = More(@, mk.t[2], k), !.n.up = More(@, mk.t[3], k),
          !.n.hist = Append(@, <<"again", "actor", k>>)]
\* k actors follow one another, each id `st` from the one before, and each read as the last was
Ids(x, k, st) == { x.n.aid + j * st : j \in 1..k }
IdSpots(ts) == SelectSeq([i \in 1..Len(ts) |-> IF i > 1 /\ ts[i - 1] = <<"k", "actor_id">> THEN i ELSE 0], LAMBDA i : i > 0)
MoreIds(toks, from, k, st) ==
  IF from = Len(toks) THEN toks ELSE LET ts == SubSeq(toks, from + 1, Len(toks)) IN Append(toks, <<"+", k, ts, IdSpots(ts), st>>)
LastUnit(x) == LET t == x.n.amark.t IN IF Len(x.n.nw) > t[1] THEN "new" ELSE IF Len(x.n.dl) > t[2] THEN "del" ELSE IF Len(x.n.up) > t[3] THEN "upd" ELSE "none"
CanNext(x, k, st) ==
  /\ Marked(x.n.amark) /\ ~Given(x) /\ LastUnit(x) # "none" /\ x.n.aid + k * st >= 0 /\ x.net.chbits < 31
  /\ \A i \in Ids(x, k, st) : MaxWidth(i, x.net.chbits, x.net.chmax) = MaxWidth(x.n.aid, x.net.chbits, x.net.chmax) /\ i < Max2(x.net.chmax, Pow2(x.net.chbits))
  /\ LastUnit(x) = "upd" => \A i \in Ids(x, k, st) : i \in DOMAIN x.n.actors /\ x.n.actors[i] = x.n.actors[x.n.aid]
RecurNext(x, k, st) ==
  IF k = 0 THEN x
  ELSE LET mk == x.n.amark  ids == Ids(x, k, st)  old == x.n.actors  unit == LastUnit(x)  far == x.n.aid + k * st
           x1 == [Recur(x, mk, k) EXCEPT !.wire = [@ EXCEPT ![Len(@)] = <<"+", k, @[3], <<2>>, st>>]]
       IN [x1 EXCEPT
            !.n.nw = MoreIds(@, mk.t[1], k, st), !.n.up = MoreIds(@, mk.t[3], k, st),
            !.n.dl = IF unit = "del" THEN Append(@, <<"+", k, <<@[Len(@)]>>, <<1>>, st>>) ELSE @,
            !.n.actors = CASE unit = "new" -> [a \in DOMAIN old \cup ids |-> IF a \in ids THEN old[x.n.aid] ELSE old[a]]
                           [] unit = "del" -> [a \in {a \in DOMAIN old : a \notin ids \/ a \in 0..(SLOTS - 1)} |-> old[a]]
                           [] OTHER -> old,
            !.n.lastnew = IF unit = "new" THEN [@ EXCEPT ![2] = far] ELSE @,
            !.n.lastup = IF unit = "upd" THEN [@ EXCEPT ![2] = far] ELSE @,
            !.n.aid = far,
            !.n.hist = Append(@, <<"next", unit, x.n.aid, k, st, x.n.obj>>)]
RecurProp(x, k) ==
  LET mk == x.n.pmark IN
  IF k = 0 THEN x ELSE [Recur(x, mk, k) EXCEPT !.n.up = More(@, mk.t[1], k), !.n.hist = Append(@, <<"again", "prop", k>>)]
RecurHeader(x, k) ==
  LET mk == x.d.mark IN
  IF k = 0 THEN x ELSE [Recur(x, mk, k) EXCEPT !.out = More(@, mk.t[1], k)]
\* what was read left the actors alone: reading it again changes nothing either
Same(x, mk) == Marked(mk) /\ mk.a = x.n.actors /\ ~Given(x)

StepFrame(x) ==
  IF x.n.fr >= x.net.nf THEN m' = Finish(x)
  ELSE \E k \in (IF Same(x, x.n.fmark) THEN {j \in Repeats(x, "frame") : x.n.fr + j <= x.net.nf} ELSE {0}) :
    LET x1 == RecurFrame(x, k)
        x2 == IF Given(x) THEN x ELSE [x1 EXCEPT !.n.fmark = [w |-> Len(x1.wire), p |-> x1.pos, t |-> <<Len(x1.n.frames)>>, a |-> x1.n.actors],
                                                 !.n.amark = NOMARK]
    IN IF x2.n.fr >= x2.net.nf THEN m' = Finish(x2) ELSE \E l \in Closes(x2) :
    LET y == EndAt(x2, l) IN
    IF Rem(y) <= 0 THEN m' = Finish(y)
    ELSE m' = Push(Atleast(y, 1), << <<"time">>, <<"delta">>, <<"actors">> >>)

StepTime(x) ==
  Read(x, 32, "time", "Time", LAMBDA y, v :
    IF FBadTime(v) THEN NetErr(y, <<"Time", v>>) ELSE [y EXCEPT !.n.time = v])
StepDelta(x) ==
  Read(x, 32, "delta", "Delta", LAMBDA y, v :
    IF FBadTime(v) THEN NetErr(y, <<"DeltaRange", v>>)
    ELSE IF FZero(v) /\ FZero(y.n.time) THEN Finish(y)
    ELSE [y EXCEPT !.n.delta = v])

Quoted(ts) == << <<"[">> >> \o ts \o << <<"]">> >>
CloseFrame(x) ==
  LET toks == << <<"{">>, <<"k", "time">>, <<"f", x.n.time>>, <<"k", "delta">>, <<"f", x.n.delta>>, <<"k", "new_actors">> >>
              \o Quoted(x.n.nw) \o << <<"k", "deleted_actors">> >> \o Quoted(x.n.dl)
              \o << <<"k", "updated_actors">> >> \o Quoted(x.n.up) \o << <<"}">> >>
      act == IF x.n.lastup # <<"none">> THEN x.n.lastup ELSE x.n.lastnew
  IN [x EXCEPT !.n.fr = @ + 1, !.n.frames = @ \o toks,
               !.n.times = Append(@, <<x.n.time, x.n.delta>>),
               !.n.hist = IF Given(x) THEN @ ELSE Append(@, <<"frame">>), !.n.nw = <<>>, !.n.dl = <<>>, !.n.up = <<>>,
               !.n.lasttime = x.n.time, !.n.lastdelta = x.n.delta,
               !.n.retrace = IF act # <<"none">> THEN act ELSE @,
               !.n.retframe = IF act # <<"none">> THEN x.n.fr ELSE @,
               !.n.ends = Append(@, <<x.pos, Max2(x.pos, x.min), 1, 0>>),
               !.n.lastup = <<"none">>, !.n.lastnew = <<"none">>,
               !.stk = << <<"frame">> >>]

\* another actor in this frame?
StepActors(x) ==
  \E k \in (IF Same(x, x.n.amark) THEN Repeats(x, "actor") ELSE {0}),
     a \in {k \in Repeats(x, "next") : k = 0 \/ CanNext(x, k, 1)}, b \in {k \in Repeats(x, "back") : k = 0 \/ CanNext(x, k, -1)} :
    LET x1 == IF a > 0 THEN RecurNext(x, a, 1) ELSE IF b > 0 THEN RecurNext(x, b, -1) ELSE RecurActor(x, k)
        x2 == IF Given(x) THEN x ELSE [x1 EXCEPT !.n.amark = [w |-> Len(x1.wire), p |-> x1.pos, a |-> x1.n.actors,
                                                              t |-> <<Len(x1.n.nw), Len(x1.n.dl), Len(x1.n.up)>>]]
    IN Read(x2, 1, "more", "Actor data", LAMBDA y, v :
         IF v = 0 THEN CloseFrame(y) ELSE Push(y, << <<"aid">>, <<"actors">> >>))
\* the id and alive bit are only attempted when the longest form would fit
StepAid(x) ==
  ReadMax(x, x.net.chbits, x.net.chmax, "aid", "Actor Id", x.net.chbits + 2, LAMBDA y, v :
    Push([y EXCEPT !.n.aid = v, !.n.visits = @ + 1], << <<"alive">> >>))
Deleted(actors, id) ==
  IF id \in 0..(SLOTS - 1) THEN actors ELSE [a \in DOMAIN actors \ {id} |-> actors[a]]
StepAlive(x) ==
  Read(x, 1, "alive", "Actor Id", LAMBDA y, v :
    IF v = 1 THEN Push(y, << <<"isnew">> >>)
    ELSE Note([y EXCEPT !.n.dl = Append(@, <<"i", y.n.aid>>), !.n.actors = Deleted(@, y.n.aid)], <<"del", y.n.aid>>))

HasName(x) == GE(x.net.ver, 868, 20, 0) \/ (GE(x.net.ver, 868, 14, 0) /\ ~x.net.lan)
StepIsNew(x) ==
  Read(x, 1, "isnew", "Is new actor", LAMBDA y, v :
    IF v = 1 THEN
       Push(y, (IF HasName(y) THEN << <<"name">> >> ELSE << <<"noname">> >>) \o << <<"X", 1, "b", "New Actor">>, <<"objid">> >>)
    ELSE IF y.n.aid \notin DOMAIN y.n.actors THEN NetErr(y, <<"MissingActor", y.n.aid>>)
    ELSE LET a == y.n.actors[y.n.aid] IN Push([y EXCEPT !.n.obj = a.obj, !.n.cache = a.cache, !.n.pmark = NOMARK], << <<"props">> >>))
StepName(x) == Read(x, 32, "name", "New Actor", LAMBDA y, v : [y EXCEPT !.n.name = <<"i", v>>])
StepObjId(x) ==
  Read(x, 32, "objid", "New Actor", LAMBDA y, v :
    IF v \notin 0..(Len(y.net.objs) - 1) THEN NetErr(y, <<"ObjRange", v>>)
    ELSE LET sp == SpawnOf(y.net.objs, y.net.idx, v)
             y1 == [y EXCEPT !.n.obj = v, !.out = <<>>]
         IN Push(y1, K("location") \o (IF sp = "None" THEN Nul ELSE VecI("New Actor"))
                     \o K("rotation") \o (IF sp = "LocationAndRotation" THEN Rot("New Actor") ELSE Nul)
                     \o << <<"spawned">> >>))
StepSpawned(x) ==
  LET toks == << <<"{">>, <<"k", "actor_id">>, <<"i", x.n.aid>>, <<"k", "name_id">>, x.n.name,
                 <<"k", "object_id">>, <<"i", x.n.obj>>, <<"k", "initial_trajectory">>, <<"{">> >>
              \o x.out \o << <<"}">>, <<"}">> >>
      spawn == [obj |-> x.n.obj, cache |-> CacheOf(x.net.objs, x.net.idx, x.net.caches, x.n.obj)]
      old == x.n.actors
  IN IF ~HasCache(x.net.objs, x.net.idx, x.n.obj) THEN m' = NetErr(x, <<"MissingCache", x.n.aid, x.n.obj>>)
     ELSE m' = Note([x EXCEPT !.n.nw = @ \o toks, !.out = <<>>,
                              !.n.actors = [a \in DOMAIN old \cup {x.n.aid} |-> IF a = x.n.aid THEN spawn ELSE old[a]],
                              !.n.lastnew = <<"new", x.n.aid, x.n.name, x.n.obj>>],
                    <<"new", x.n.aid, x.n.obj>>)

StepProps(x) ==
  \E k \in (IF Marked(x.n.pmark) /\ ~Given(x) THEN Repeats(x, "prop") ELSE {0}) :
    LET x1 == RecurProp(x, k)
        x2 == IF Given(x) THEN x ELSE [x1 EXCEPT !.n.pmark = [w |-> Len(x1.wire), p |-> x1.pos, t |-> <<Len(x1.n.up)>>, a |-> <<>>]]
    IN Read(x2, 1, "prop", "Is prop present", LAMBDA y, v :
         IF v = 0 THEN y ELSE Push(y, << <<"sid">>, <<"props">> >>))
\* what other classes call a stream id: all names, and those not known
OthersWith(x, sid) ==
  IF Given(x) THEN <<>>
  ELSE LET s == Sharers(x.net.objs, x.net.idx, x.net.caches, sid)
       IN << Sorted(s), Sorted({o \in s : x.net.objs[o + 1] \notin DOMAIN ATTRS}) >>
StepSid(x) ==
  LET c == x.n.cache IN
  IF c.bits = 63 THEN m' = NetErr(x, <<"NotEnough", "Prop id">>)
  ELSE ReadMax(x, c.bits, c.max, "sid", "Prop id", c.bits + 1, LAMBDA y, v :
    LET tag == IF v \in DOMAIN c.attrs THEN AttrTag(y.net.objs[c.attrs[v] + 1]) ELSE "NotImplemented"
        ao  == IF v \in DOMAIN c.attrs THEN c.attrs[v] ELSE -1
    IN IF tag = "NotImplemented" THEN NetErr(y, <<"MissingAttr", y.n.aid, y.n.obj, v, ao>> \o OthersWith(y, v))
       ELSE Push([y EXCEPT !.n.sid = v, !.n.aobj = ao, !.n.inattr = TRUE, !.out = <<>>],
                 Layout(tag, y.net.ver, y.net.rl223) \o << <<"updated">> >>))
StepUpdated(x) ==
  m' = Note([x EXCEPT !.n.up = @ \o << <<"{">>, <<"k", "actor_id">>, <<"i", x.n.aid>>, <<"k", "stream_id">>, <<"i", x.n.sid>>,
                                  <<"k", "object_id">>, <<"i", x.n.aobj>>, <<"k", "attribute">> >> \o x.out \o << <<"}">> >>,
                 !.out = <<>>, !.n.inattr = FALSE,
                 !.n.lastup = <<"upd", x.n.aid, x.n.obj, x.n.sid, x.n.aobj>>],
            <<"upd", x.n.aid, x.n.obj, x.n.sid, x.n.aobj>>)

(* ------------------- attribute items with lookback -------------------- *)
StepQuat(x, lab) ==
  \/ /\ Fits(x, 56)
     /\ \E q \in Vals(x, 2, "any2") : LET x1 == Adv(x, 2, q) IN
        \E a \in Vals(x1, 18, "q18") : LET x2 == Adv(x1, 18, a) IN
        \E b \in Vals(x2, 18, "q18") : LET x3 == Adv(x2, 18, b) IN
        \E c \in Vals(x3, 18, "q18") : m' = Emit(Adv(x3, 18, c), << <<"q4", q, a, b, c>> >>)
  \/ \E l \in Ends(x, 56) : m' = NotEnough(EndAt(x, l), lab)
StepCQuat(x, lab) ==
  \/ /\ Fits(x, 48)
     /\ \E a \in Vals(x, 16, "u16") : LET x2 == Adv(x, 16, a) IN
        \E b \in Vals(x2, 16, "u16") : LET x3 == Adv(x2, 16, b) IN
        \E c \in Vals(x3, 16, "u16") : m' = Emit(Adv(x3, 16, c), << <<"c3", a, b, c>> >>)
  \/ \E l \in Ends(x, 48) : m' = NotEnough(EndAt(x, l), lab)

BytesToks(bs) == << <<"[">> >> \o [i \in 1..Len(bs) |-> <<"i", bs[i]>>] \o << <<"]">> >>
RECURSIVE UntilNul(_, _)
UntilNul(bs, i) == IF i > Len(bs) \/ bs[i] = 0 THEN <<>> ELSE <<bs[i]>> \o UntilNul(bs, i + 1)
\* name (16 bytes up to a null), opaque bytes, account id; emitted in another order
StepPs4(x) ==
  ReadBytes(x, 16, "ps4name", "PS4 Name", LAMBDA y, bs :
    Push([y EXCEPT !.s = bs], << <<"ps4b">> >>))
StepPs4b(x) ==
  LET k == IF NetV(x.net.ver) >= 1 THEN 16 ELSE 8
      nm == Win1252(UntilNul(x.s, 1))
  IN ReadBytes(x, k, "any", "PS4 Unknown", LAMBDA y, bs : Push([y EXCEPT !.s = nm], << <<"ps4c", bs>> >>))
StepPs4c(x, bs) ==
  Read64(x, "PS4 ID", LAMBDA y, lo, hi :
    Emit(y, << <<"V", "PlayStation">>, <<"{">>, <<"k", "online_id">>, <<"q", lo, hi>>, <<"k", "name">>, <<"s", y.s>>,
               <<"k", "unknown1">> >> \o BytesToks(bs) \o << <<"}">> >>))

\* the name of a reservation depends on the unique id just emitted
\* (system id in m.n.sys, split screen number in m.n.remote)
Utf8Len(cs) == LET hi == {i \in 1..Len(cs) : cs[i] >= 128} IN Len(cs) + Cardinality(hi)
StepResName(x) ==
  LET o == x.out
      kpos == CHOOSE i \in 1..Len(o) : o[i] = <<"k", "system_id">>
      sys == o[kpos + 1][2]
      split0 == sys = 0 /\ o[kpos + 4] = <<"u", 0>>
  IN IF sys # 0 THEN m' = Push(x, Text)
     ELSE IF ~split0 THEN m' = Push([x EXCEPT !.s = <<>>], << <<"resch">> >>)
     ELSE m' = Emit(x, << <<"n">> >>)
StepResCh(x) ==
  IF Utf8Len(x.s) >= 255 THEN m' = Emit(x, << <<"s", x.s>> >>)
  ELSE Read(x, 8, "reschar", "Reservation", LAMBDA y, v :
         IF v = 0 THEN Emit(y, << <<"s", y.s>> >>)
         ELSE Push([y EXCEPT !.s = Append(@, v)], << <<"resch">> >>))

RECURSIVE Times(_, _)
Times(k, items) == IF k = 0 THEN <<>> ELSE items \o Times(k - 1, items)

(* --------------------------- the file grammar ------------------------- *)
Sec(name) == << <<"sec", name>> >>
List(kind) == << <<"list", kind>> >>
FILE ==
  << <<"T", <<"{">> >>, <<"hsize">>, <<"hcrc">>, <<"major">>, <<"minor">>, <<"netv">>, <<"gtype">>,
     <<"sec", "header properties">>, <<"T", <<"k", "properties">> >>, <<"T", <<"{">> >>, <<"map", 0>>, <<"hend">>,
     <<"csize">>, <<"ccrc">>,
     <<"sec", "levels">>, <<"T", <<"k", "levels">> >>, <<"list", "text">>,
     <<"sec", "keyframes">>, <<"T", <<"k", "keyframes">> >>, <<"list", "kf">>,
     <<"sec", "">>, <<"netsize">>,
     <<"sec", "debug info">>, <<"T", <<"k", "debug_info">> >>, <<"list", "dbg">>,
     <<"sec", "tickmarks">>, <<"T", <<"k", "tick_marks">> >>, <<"list", "tick">>,
     <<"sec", "packages">>, <<"T", <<"k", "packages">> >>, <<"list", "text">>,
     <<"sec", "objects">>, <<"T", <<"k", "objects">> >>, <<"list", "text">>,
     <<"sec", "names">>, <<"T", <<"k", "names">> >>, <<"list", "text">>,
     <<"sec", "class index">>, <<"T", <<"k", "class_indices">> >>, <<"list", "cls">>,
     <<"sec", "net cache">>, <<"T", <<"k", "net_cache">> >>, <<"list", "cache">>,
     <<"T", <<"}">> >>, <<"fend">> >>

FI(x, key, dom, lab, Upd(_, _)) ==
  Read(x, 32, dom, lab, LAMBDA y, v : Upd(Emit(y, << <<"k", key>>, <<"i", v>> >>), v))

StepHSize(x) == FI(x, "header_size", "hsize", "header size", LAMBDA y, v : [y EXCEPT !.d.hs = v])
StepCSize(x) == FI(x, "content_size", "csize", "content size", LAMBDA y, v : [y EXCEPT !.d.hs = v])
MAX_GEN_SIZE == 100000000         \* sizes beyond any data considered here
\* the checksum is followed by a check that the declared section is there
StepCrc(x, which, lab, dlab) ==
  \/ /\ Fits(x, 32)
     /\ \E c \in CrcVals(x, which) :
          LET y0 == Adv(x, 32, c.v)
              y1 == [y0 EXCEPT !.wire = IF Given(x) THEN @ ELSE Append(x.wire, <<"C", which, IF c.good THEN 1 ELSE 0>>)]
              y2 == Emit(y1, << <<"k", IF which = "h" THEN "header_crc" ELSE "content_crc">>, <<"crc", which>> >>)
              hs == x.d.hs
              y3 == IF which = "h" THEN [y2 EXCEPT !.d.hgood = c.good, !.stage = "h", !.d.exact = (hs = EXACT)]
                    ELSE [y2 EXCEPT !.d.bgood = c.good, !.stage = "b", !.d.exact = (hs = EXACT)]
          IN IF hs = EXACT /\ ~Given(x) THEN m' = y3
             ELSE IF hs < 0 \/ hs > MAX_GEN_SIZE THEN m' = FailRead(y2, hs, dlab)
             ELSE \/ Fits(y2, 8 * hs) /\ m' = Atleast(y3, 8 * hs)
                  \/ \E l \in Ends(y2, 8 * hs) : m' = FailRead(EndAt(y2, l), hs, dlab)
  \/ \E l \in Ends(x, 32) : m' = FailRead(EndAt(x, l), 4, lab)
StepMajor(x) == FI(x, "major_version", "major", "major version", LAMBDA y, v : [y EXCEPT !.d.major = v])
StepMinor(x) == FI(x, "minor_version", "minor", "minor version", LAMBDA y, v : [y EXCEPT !.d.minor = v])
StepNetV(x) ==
  IF x.d.major > 865 /\ x.d.minor > 17
  THEN FI(x, "net_version", "netv", "net version", LAMBDA y, v : [y EXCEPT !.d.netv = v, !.d.hasnet = TRUE])
  ELSE m' = Emit(x, << <<"k", "net_version">>, <<"n">> >>)
StepGType(x) ==
  LET x1 == [x EXCEPT !.d.sec = "game type"] IN
  ReadText(x1, "", "gtype", LAMBDA y, t : Emit(y, << <<"k", "game_type">>, t>>))
Quirks(x) == x.d.major = 0 /\ x.d.minor = 0 /\ ~x.d.hasnet

\* property lists
StepMap(x, depth) ==
  \E n \in (IF depth = 0 /\ Marked(x.d.mark) /\ ~Given(x) THEN Repeats(x, "header") ELSE {0}) :
    LET x1 == RecurHeader(x, n)
        x2 == IF Given(x) \/ depth > 0 THEN x ELSE [x1 EXCEPT !.d.mark = [w |-> Len(x1.wire), p |-> x1.pos, t |-> <<Len(x1.out)>>, a |-> <<>>]]
    IN ReadStr(x2, "", "key", LAMBDA y, k :
         IF k = KEY_NONE THEN Emit(y, << <<"}">> >>)
         ELSE Push([y EXCEPT !.s = k], << <<"pkind", k, depth>>, <<"map", depth>> >>))
StepPKind(x, key, depth) ==
  ReadStr(x, "", "kind", LAMBDA y, kd : Push([y EXCEPT !.s = kd], << <<"psize">>, <<"pskip">>, <<"pval", key, kd, depth>> >>))
\* keep the first property of each name the network set-up looks up
Keep(x, key, depth, val) ==
  IF depth = 0 /\ key \in LOOKUPS /\ key \notin DOMAIN x.d.look
  THEN [x EXCEPT !.d.look = [k \in DOMAIN @ \cup {key} |-> IF k = key THEN val ELSE @[k]]]
  ELSE x
StepPVal(x, key, kd, depth) ==
  LET put(y, toks, val) == Keep(Emit(y, << <<"K", key>> >> \o toks), key, depth, val)
      H(name) == <<"h", name>>
  IN CASE kd = S_BOOL ->
            IF Quirks(x) THEN Read(x, 32, "bool32", "", LAMBDA y, v : put(y, <<H("Bool"), <<"b", IF v % 256 = 1 THEN 1 ELSE 0>>>>, <<"Other">>))
            ELSE Read(x, 8, "bool8", "", LAMBDA y, v : put(y, <<H("Bool"), <<"b", IF v = 1 THEN 1 ELSE 0>>>>, <<"Other">>))
       [] kd = S_BYTE ->
            IF Quirks(x) THEN
              ReadText(x, "", "text", LAMBDA y, t :
                put(y, <<H("Byte"), <<"{">>, <<"k", "kind">>, t, <<"k", "value">>, <<"n">>, <<"}">>>>, <<"Other">>))
            ELSE
              ReadStr(x, "", "bytekind", LAMBDA y, bk :
                IF bk = KEY_NONE THEN Push(y, << <<"X", 8, "u8", "">> >>)
                ELSE Push(y, << <<"byteval", key, bk, depth>> >>))
       [] kd = S_ARRAY /\ depth < MAX_DEPTH ->
            Read(x, 32, "arrlen", "array property size", LAMBDA y, v :
              IF v < 0 \/ v > MAX_LIST THEN FileErr(y, "", <<"LTL", v>>)
              ELSE Push(put(y, <<H("Array"), <<"[">>>>, <<"Other">>), << <<"rep", v, "map", depth + 1>>, <<"T", <<"]">> >> >>))
       [] kd = S_STRUCT /\ depth < MAX_DEPTH ->
            ReadStr(x, "", "sname", LAMBDA y, nm :
              Push(put(y, <<H("Struct"), <<"{">>, <<"k", "name">>, <<"s", nm>>, <<"k", "fields">>, <<"{">>>>, <<"Other">>),
                   << <<"map", depth + 1>>, <<"T", <<"}">> >> >>))
       [] kd = S_FLOAT -> Read(x, 32, "f32", "", LAMBDA y, v : put(y, <<H("Float"), <<"f", v>>>>, <<"Other">>))
       [] kd = S_INT   -> Read(x, 32, IF depth = 0 /\ key = K_NUMFRAMES THEN "numframes"
                                      ELSE IF depth = 0 /\ key = K_MAXCHANNELS THEN "maxchannels" ELSE "i32", "",
                               LAMBDA y, v : put(y, <<H("Int"), <<"i", v>>>>, <<"Int", v>>))
       [] kd = S_QWORD -> Read64(x, "", LAMBDA y, lo, hi : put(y, <<H("QWord"), <<"q", lo, hi>>>>, <<"Other">>))
       [] kd = S_NAME  -> ReadText(x, "", "text", LAMBDA y, t : put(y, <<H("Name"), t>>, <<"Name", Codes1(t)>>))
       [] kd = S_STR   -> ReadText(x, "", "text", LAMBDA y, t : put(y, <<H("Str"), t>>, <<"Str", Codes1(t)>>))
       [] OTHER -> m' = FileErr(x, "", <<"Unexp", kd>>)
StepByteVal(x, key, bk, depth) ==
  ReadStr(x, "", "byteval", LAMBDA y, bv :
    Keep(Emit(y, << <<"K", key>>, <<"h", "Byte">>, <<"{">>, <<"k", "kind">>, <<"s", bk>>, <<"k", "value">>, <<"s", bv>>, <<"}">> >>),
         key, depth, <<"Other">>))

\* counted lists of the body
StepList(x, kind) ==
  Read(x, 32, "len", "", LAMBDA y, v :
    IF v < 0 \/ v > MAX_LIST THEN FileErr(y, "", <<"LTL", v>>)
    ELSE Push(Emit(y, << <<"[">> >>), << <<"rep", v, kind, 0>>, <<"T", <<"]">> >> >>))
Elem(kind, depth) ==
  CASE kind = "text" -> << <<"ftext">> >>
    [] kind = "map"  -> << <<"T", <<"{">> >>, <<"map", depth>> >>
    [] kind = "kf"   -> Obj(<<F("time", << <<"R", 32, "f", "f32", "">> >>), F("frame", << <<"R", 32, "i", "i32", "">> >>),
                              F("position", << <<"R", 32, "i", "i32", "">> >>)>>)
    [] kind = "dbg"  -> Obj(<<F("frame", << <<"R", 32, "i", "i32", "">> >>), F("user", << <<"ftext">> >>), F("text", << <<"ftext">> >>)>>)
    [] kind = "tick" -> Obj(<<F("description", << <<"ftext">> >>), F("frame", << <<"R", 32, "i", "i32", "">> >>)>>)
    [] kind = "cls"  -> Obj(<<F("class", << <<"fstr">> >>), F("index", << <<"R", 32, "i", "i32", "">> >>)>>)
    [] kind = "cache" -> << <<"cachebegin">> >> \o
         Obj(<<F("object_ind", << <<"R", 32, "i", "cacheobj", "">>, <<"cacheobj">> >>), F("parent_id", << <<"R", 32, "i", "i32", "">> >>),
               F("cache_id", << <<"R", 32, "i", "i32", "">> >>), F("properties", << <<"list", "prop">> >>)>>)
    [] kind = "prop" -> Obj(<<F("object_ind", << <<"R", 32, "i", "propobj", "">>, <<"propobj">> >>),
                              F("stream_id", << <<"R", 32, "i", "propsid", "">>, <<"propsid">> >>)>>)
\* a run of more than MAX_RUN elements offered by the environment is uniform: smallest elements only
MAX_RUN == 200
SmallBytes(kind) ==
  CASE kind = "text" -> <<0, 0, 0, 0>>
    [] kind = "map"  -> <<5, 0, 0, 0, 78, 111, 110, 101, 0>>
    [] kind = "kf"   -> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
    [] kind = "tick" -> <<0, 0, 0, 0, 0, 0, 0, 0>>
    [] kind = "cls"  -> <<0, 0, 0, 0, 0, 0, 0, 0>>
    [] kind = "dbg"  -> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
    [] kind = "cache" -> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
    [] kind = "prop" -> <<0, 0, 0, 0, 0, 0, 0, 0>>
SmallToks(kind) ==
  CASE kind = "text" -> << <<"s", <<>>>> >>
    [] kind = "map"  -> << <<"{">>, <<"}">> >>
    [] kind = "kf"   -> << <<"{">>, <<"k", "time">>, <<"f", 0>>, <<"k", "frame">>, <<"i", 0>>, <<"k", "position">>, <<"i", 0>>, <<"}">> >>
    [] kind = "tick" -> << <<"{">>, <<"k", "description">>, <<"s", <<>>>>, <<"k", "frame">>, <<"i", 0>>, <<"}">> >>
    [] kind = "cls"  -> << <<"{">>, <<"k", "class">>, <<"s", <<>>>>, <<"k", "index">>, <<"i", 0>>, <<"}">> >>
    [] kind = "dbg"  -> << <<"{">>, <<"k", "frame">>, <<"i", 0>>, <<"k", "user">>, <<"s", <<>>>>, <<"k", "text">>, <<"s", <<>>>>, <<"}">> >>
    [] kind = "cache" -> << <<"{">>, <<"k", "object_ind">>, <<"i", 0>>, <<"k", "parent_id">>, <<"i", 0>>, <<"k", "cache_id">>, <<"i", 0>>,
                            <<"k", "properties">>, <<"[">>, <<"]">>, <<"}">> >>
    [] kind = "prop" -> << <<"{">>, <<"k", "object_ind">>, <<"i", 0>>, <<"k", "stream_id">>, <<"i", 0>>, <<"}">> >>
\* what a run of k smallest elements establishes besides its tokens
RunEffect(x, k, kind) ==
  IF kind = "text" /\ x.d.sec = "objects" THEN [x EXCEPT !.d.objs = @ \o [i \in 1..k |-> ""]]
  ELSE IF kind = "prop" THEN LET c == Len(x.d.caches) IN [x EXCEPT !.d.caches[c].props = Append(@, <<0, 0>>)]
  ELSE x
StepRep(x, k, kind, depth) ==
  IF k = 0 THEN m' = x
  ELSE IF k > MAX_RUN /\ ~Given(x) THEN
    LET bs == SmallBytes(kind) IN
    \/ Fits(x, 8 * k * Len(bs)) /\ m' = RunEffect(Emit(AdvBytes(x, bs, k), << <<"*", k, SmallToks(kind)>> >>), k, kind)
    \* the data ends inside the run, at an element boundary
    \/ \E l \in Ends(x, 8 * k * Len(bs)) :
         LET y == EndAt(x, l)
             fit == RemBytes(y) \div Len(bs)
         IN m' = Push(Emit(AdvBytes(y, bs, fit), << <<"*", fit, SmallToks(kind)>> >>), Elem(kind, depth))
  ELSE m' = Push(x, Elem(kind, depth) \o << <<"rep", k - 1, kind, depth>> >>)
StepFText(x) ==
  ReadText(x, "", "ftext", LAMBDA y, t :
    LET y1 == Emit(y, <<t>>) IN
    IF y.d.sec = "objects" /\ t[1] = "s" THEN [y1 EXCEPT !.d.objs = Append(@, Str(t[2]))] ELSE y1)
StepFStr(x) == ReadStr(x, "", "class", LAMBDA y, t : Emit(y, << <<"s", t>> >>))
StepCacheObj(x) == m' = [x EXCEPT !.d.caches = Append(@, [ind |-> x.v, props |-> <<>>])]
StepPropObj(x) ==
  LET k == Len(x.d.caches) IN m' = [x EXCEPT !.d.caches[k].props = Append(@, <<x.v, 0>>)]
StepPropSid(x) ==
  LET k == Len(x.d.caches)  j == Len(x.d.caches[k].props) IN m' = [x EXCEPT !.d.caches[k].props[j] = <<@[1], x.v>>]

\* the network data is skipped over; it is read once the rest of the file is known
StepNetSize(x) ==
  \/ /\ Fits(x, 32)
     /\ \E v \in Vals(x, 32, "netsize") :
          LET y == Adv(x, 32, v)
              z == [y EXCEPT !.d.netpos = y.pos, !.d.netlen = v, !.pos = @ + 8 * v,
                             !.wire = IF Given(y) THEN @ ELSE Append(@, <<"N", v>>)]
          IN IF v > MAX_GEN_SIZE /\ x.cfg.vast
             \* more network data than positions are counted for: its bytes are counted apart
             THEN m' = [y EXCEPT !.d.netpos = y.pos, !.d.skip = v, !.wire = Append(@, <<"N", v>>)]
             ELSE IF v < 0 \/ v > MAX_GEN_SIZE THEN m' = FailRead(y, v, "network data")
             ELSE \/ Fits(y, 8 * v) /\ m' = z
                  \/ \E l \in Ends(y, 8 * v) : m' = FailRead(EndAt(y, l), v, "network data")
  \/ \E l \in Ends(x, 32) : m' = FailRead(EndAt(x, l), 4, "network size")

Triple(d) == <<d.major, d.minor, IF d.hasnet THEN d.netv ELSE 0>>
StepFEnd(x) ==
  m' = NetStart([x EXCEPT !.fwire = x.wire, !.wire = <<>>, !.fout = x.out, !.flim = x.lim, !.fmin = x.min, !.out = <<>>, !.base = x.d.netpos],
                Triple(x.d), x.d.look, x.d.objs, x.d.caches, 8 * x.d.netlen)

(* -------------------------------- steps ------------------------------- *)
Step ==
  LET it == Head(m.stk)
      x  == [m EXCEPT !.stk = Tail(@)]
      op == it[1]
  IN CASE op = "T" -> m' = Emit(x, <<it[2]>>)
       [] op = "R" -> Read(x, it[2], it[4], it[5], LAMBDA y, v :
                        Emit(y, << IF it[3] = "i8" THEN <<"i", I8(v)>> ELSE Tok(it[3], v) >>))
       [] op = "X" -> Read(x, it[2], it[3], it[4], LAMBDA y, v : y)
       [] op = "R64" -> Read64(x, it[3], LAMBDA y, lo, hi : Emit(y, << <<it[2], lo, hi>> >>))
       [] op = "opt" -> Read(x, 1, "ob", it[3], LAMBDA y, v : IF v = 1 THEN Push(y, it[2]) ELSE Emit(y, << <<"n">> >>))
       [] op = "max" -> ReadMax(x, it[2], it[3], it[5], it[6], 0, LAMBDA y, v : Emit(y, <<Tok(it[4], v)>>))
       [] op = "vec" -> ReadVec(x, it[2], it[3])
       [] op = "rot" -> m' = Push(x, ROTITEMS(it[2]))
       [] op = "quat" -> StepQuat(x, it[2])
       [] op = "cquat" -> StepCQuat(x, it[2])
       [] op = "text" -> ReadNetText(x, it[2])
       [] op = "bytes" -> ReadBytes(x, it[2], "any", it[3], LAMBDA y, bs : Emit(y, BytesToks(bs)))
       [] op = "loadout" -> m' = Push(x, LoadoutRest(x.v, it[2]))
       [] op = "rigid" -> m' = Push(x, RigidRest(x.v = 1, x.net.ver, it[2]))
       [] op = "uid" -> m' = Push(x, UidRest(x.v, x.net.ver))
       [] op = "ps4" -> StepPs4(x)
       [] op = "ps4b" -> StepPs4b(x)
       [] op = "ps4c" -> StepPs4c(x, it[2])
       [] op = "badid" -> m' = AttrErr(x, <<"BadRemote", it[2]>>)
       [] op = "leader" -> Read(x, 8, "sysid", "Party Leader", LAMBDA y, v :
                             IF v = 0 THEN Emit(y, << <<"n">> >>)
                             ELSE Push(Emit(y, << <<"{">>, <<"k", "system_id">>, <<"i", v>> >>), UidRest(v, y.net.ver)))
       [] op = "resname" -> StepResName(x)
       [] op = "resch" -> StepResCh(x)
       [] op = "plist" -> Read(x, 8, "plen", it[2], LAMBDA y, v :
                             Push(Emit(y, << <<"[">> >>), Times(v, << <<"pinner", it[2]>> >>) \o T(<<"]">>)))
       [] op = "pinner" -> Read(x, 8, "pinlen", it[2], LAMBDA y, v :
                             Push(Emit(y, << <<"[">> >>), Times(v, ProductItems(it[2])) \o T(<<"]">>)))
       [] op = "prodval" -> m' = Push(x, ProductValue(ProdKind(x.net.idx, x.v), x.net.ver, it[2]))
       [] op = "oldcolor" -> Read(x, 1, "ob", it[2], LAMBDA y, v :
                             IF v = 0 THEN Emit(y, << <<"U", "NoColor">> >>)
                             ELSE Push(y, V("OldColor") \o << <<"R", 31, "u", "u31", it[2]>> >>))
       [] op = "frame" -> StepFrame(x)
       [] op = "time" -> StepTime(x)
       [] op = "delta" -> StepDelta(x)
       [] op = "actors" -> StepActors(x)
       [] op = "aid" -> StepAid(x)
       [] op = "alive" -> StepAlive(x)
       [] op = "isnew" -> StepIsNew(x)
       [] op = "name" -> StepName(x)
       [] op = "noname" -> m' = [x EXCEPT !.n.name = <<"n">>]
       [] op = "objid" -> StepObjId(x)
       [] op = "spawned" -> StepSpawned(x)
       [] op = "props" -> StepProps(x)
       [] op = "sid" -> StepSid(x)
       [] op = "updated" -> StepUpdated(x)
       [] op = "hsize" -> StepHSize(x)
       [] op = "hcrc" -> StepCrc(x, "h", "header crc", "header data")
       [] op = "major" -> StepMajor(x)
       [] op = "minor" -> StepMinor(x)
       [] op = "netv" -> StepNetV(x)
       [] op = "gtype" -> StepGType(x)
       [] op = "sec" -> m' = [x EXCEPT !.d.sec = it[2]]
       [] op = "map" -> StepMap(x, it[2])
       [] op = "pkind" -> StepPKind(x, it[2], it[3])
       [] op = "psize" -> Read(x, 32, "u32", "property size", LAMBDA y, v : y)
       [] op = "pskip" -> Read(x, 32, "u32", "", LAMBDA y, v : y)
       [] op = "pval" -> StepPVal(x, it[2], it[3], it[4])
       [] op = "byteval" -> StepByteVal(x, it[2], it[3], it[4])
       [] op = "hend" -> m' = [x EXCEPT !.d.sec = "", !.d.exact = FALSE, !.d.hend = x.pos \div 8, !.stage = "pre-b"]
       [] op = "csize" -> StepCSize(x)
       [] op = "ccrc" -> StepCrc(x, "b", "content crc", "content data")
       [] op = "list" -> StepList(x, it[2])
       [] op = "rep" -> StepRep(x, it[2], it[3], it[4])
       [] op = "ftext" -> StepFText(x)
       [] op = "fstr" -> StepFStr(x)
       [] op = "cachebegin" -> m' = x
       [] op = "cacheobj" -> StepCacheObj(x)
       [] op = "propobj" -> StepPropObj(x)
       [] op = "propsid" -> StepPropSid(x)
       [] op = "netsize" -> StepNetSize(x)
       [] op = "fend" -> StepFEnd(x)

Done == m.stk = <<>>
Next == ~Done /\ Step

Start(cfg) ==
  [cfg |-> cfg, stk |-> <<>>, reg |-> "file", pos |-> 0, lim |-> BIG, min |-> 0, flim |-> BIG, fmin |-> 0, base |-> 0, wire |-> <<>>, fwire |-> <<>>,
   out |-> <<>>, fout |-> <<>>, v |-> 0, s |-> <<>>, d |-> D0, n |-> N0, net |-> [ver |-> <<0, 0, 0>>],
   stage |-> "pre-h", err |-> <<"none">>, nres |-> <<"none">>]

(* ---------------------- outcomes under each policy -------------------- *)
\* what a caller sees, given the checksum and network policies
FileOutcome(x, crc) ==
  LET sect == x.stage \in {"h", "pre-b", "b", "net"}     \* header section was entered
      body == x.stage \in {"b", "net"}
      failed == x.err # <<"none">>
  IN IF crc = "Always" /\ sect /\ ~x.d.hgood THEN <<"mismatch", "h">>
     ELSE IF crc = "Always" /\ body /\ ~x.d.bgood THEN <<"mismatch", "b">>
     ELSE IF crc = "OnError" /\ failed /\ x.stage = "h" /\ ~x.d.hgood THEN <<"corrupt", "header", x.err>>
     ELSE IF crc = "OnError" /\ failed /\ x.stage = "b" /\ ~x.d.bgood THEN <<"corrupt", "body", x.err>>
     ELSE IF failed THEN <<"err", x.err>>
     ELSE <<"ok">>
\* frames are present iff asked for and decoded
NetOutcome(x, np) ==
  IF np = "Never" THEN <<"noframes">>
  ELSE IF x.nres = <<"ok">> THEN <<"frames">>
  ELSE IF np = "Ignore" THEN <<"noframes">>
  ELSE <<"neterr", x.nres>>
Outcome(x, crc, np) ==
  LET f == FileOutcome(x, crc) IN IF f = <<"ok">> THEN NetOutcome(x, np) ELSE f
CRCS == <<"Always", "OnError", "Never">>
NETS == <<"Always", "Ignore", "Never">>
\* all nine, as tags
Outcomes(x) ==
  [i \in 1..9 |-> LET o == Outcome(x, CRCS[((i - 1) \div 3) + 1], NETS[((i - 1) % 3) + 1])
                  IN IF o[1] \in {"mismatch", "corrupt"} THEN o[1] \o "-" \o o[2] ELSE o[1]]
=============================================================================
