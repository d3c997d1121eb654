------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Static resolution of the object list and the network cache: which class *)
(* spawns with what, and which attribute a stream id means for a class.    *)
(* `objs` is the replay's object list (strings), ids are 0-based indexes.  *)
(* `caches` is a sequence of [ind, props], props a sequence of             *)
(* <<object index, stream id>>.                                            *)
(***************************************************************************)
EXTENDS Base, Json, IOUtils

TABLES  == JsonDeserialize("tables.json")
PARENTS == TABLES.parents
ATTRS   == TABLES.attributes
SPAWNS  == TABLES.spawns

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LEVEL == "TheWorld:PersistentLevel."
INSTANCES == << "CrowdActor_TA", "CrowdManager_TA", "VehiclePickup_Boost_TA", "InMapScoreboard_TA",
                "BreakOutActor_Platform_TA", "PlayerStart_Platform_TA" >>
\* position of the first '.', or 0
RECURSIVE DotFrom(_, _)
DotFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "." THEN i ELSE DotFrom(s, i + 1)

\* instances of a class placed in a level, "<stadium>.TheWorld:PersistentLevel.<Class><suffix>",
\* belong to the class named without stadium and suffix
Normalize(name) ==
  LET dot  == DotFrom(name, 1)
      tail == IF StartsWith(name, LEVEL) THEN SubSeq(name, Len(LEVEL) + 1, Len(name))
              ELSE IF dot > 0 /\ StartsWith(SubSeq(name, dot + 1, Len(name)), LEVEL)
                   THEN SubSeq(name, dot + Len(LEVEL) + 1, Len(name))
              ELSE ""
      hits == {i \in 1..Len(INSTANCES) : StartsWith(tail, INSTANCES[i])}
  IN IF Len(name) <= Len(LEVEL) + Len("CrowdActor_TA") \/ tail = "" \/ hits = {} THEN name
     ELSE LEVEL \o INSTANCES[CHOOSE i \in hits : TRUE]

ParentOf(name) == LET n == Normalize(name) IN IF n \in DOMAIN PARENTS THEN PARENTS[n] ELSE ""

\* name -> id of its first occurrence
Index(objs) ==
  LET names == {objs[i] : i \in 1..Len(objs)}
  IN [n \in names |-> (CHOOSE i \in 1..Len(objs) : objs[i] = n /\ \A j \in 1..(i-1) : objs[j] # n) - 1]

\* ids of the class and its ancestors that are present in the replay, nearest first;
\* classes without a known parent (the root, unknown names) are not part of any chain
RECURSIVE Chain(_, _)
Chain(idx, name) ==
  LET p == ParentOf(name)
  IN IF p = "" THEN <<>>
     ELSE (IF name \in DOMAIN idx THEN <<idx[name]>> ELSE <<>>) \o Chain(idx, p)

\* what a new actor of the class carries: "none", "loc", "locrot"
RECURSIVE FirstSpawn(_, _, _)
FirstSpawn(objs, chain, i) ==
  IF i > Len(chain) THEN "None"
  ELSE LET n == objs[chain[i] + 1]
       IN IF n \in DOMAIN SPAWNS THEN SPAWNS[n] ELSE FirstSpawn(objs, chain, i + 1)
SpawnOf(objs, idx, id) ==
  LET name == objs[id + 1]
  IN IF idx[name] # id THEN "None"                       \* later duplicate of a name
     ELSE IF name \in DOMAIN SPAWNS THEN SPAWNS[name]
     ELSE FirstSpawn(objs, Chain(idx, name), 1)

\* own cache entries of an object, entries for the same object appended in order
RECURSIVE PropsFrom(_, _, _)
PropsFrom(caches, id, i) ==
  IF i > Len(caches) THEN <<>>
  ELSE (IF caches[i].ind = id THEN caches[i].props ELSE <<>>) \o PropsFrom(caches, id, i + 1)

\* first cache entry that references an object outside the list, or <<>>
RECURSIVE BadPropFrom(_, _, _)
BadPropFrom(n, caches, i) ==
  IF i > Len(caches) THEN <<>>
  ELSE LET ps == caches[i].props
           bad == {j \in 1..Len(ps) : ps[j][1] < 0 \/ ps[j][1] >= n}
       IN IF bad = {} THEN BadPropFrom(n, caches, i + 1)
          ELSE ps[CHOOSE j \in bad : \A k \in bad : j <= k]
BadProp(objs, caches) == BadPropFrom(Len(objs), caches, 1)

RECURSIVE Override(_, _, _)
Override(m, ps, i) ==
  IF i > Len(ps) THEN m
  ELSE Override([s \in DOMAIN m \cup {ps[i][2]} |-> IF s = ps[i][2] THEN ps[i][1] ELSE m[s]], ps, i + 1)
RECURSIVE Inherit(_, _, _)
Inherit(caches, chain, i) ==            \* root first, descendants override
  IF i > Len(chain) THEN [s \in {} |-> 0]
  ELSE Override(Inherit(caches, chain, i + 1), PropsFrom(caches, chain[i], 1), 1)

\* stream id -> attribute object id for the class, with the bound and bit count of stream ids
HasCache(objs, idx, id) ==
  /\ id \in 0..(Len(objs) - 1)
  /\ idx[objs[id + 1]] = id
  /\ ParentOf(objs[id + 1]) # ""
CacheOf(objs, idx, caches, id) ==
  LET attrs == Inherit(caches, Chain(idx, objs[id + 1]), 1)
      ids   == DOMAIN attrs
      top   == IF ids = {} THEN 2 ELSE CHOOSE s \in ids : \A x \in ids : x <= s
      max   == IF top = MAX32 THEN top ELSE top + 1
  IN [attrs |-> attrs, max |-> max,
      \* a class whose ids are all negative can never hold an update
      bits |-> IF max < 0 THEN 63 ELSE Max2(BitWidth(max), 1) - 1]

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x <= y IN <<a>> \o Sorted(S \ {a})
\* the attributes (object ids) that any class of the replay gives a stream id
Sharers(objs, idx, caches, sid) ==
  LET own == { o \in 0..(Len(objs) - 1) : HasCache(objs, idx, o) }
      at(o) == LET a == CacheOf(objs, idx, caches, o).attrs IN IF sid \in DOMAIN a THEN {a[sid]} ELSE {}
  IN UNION { at(o) : o \in own }

AttrTag(name) == IF name \in DOMAIN ATTRS THEN ATTRS[name] ELSE "NotImplemented"

PRODUCTS == [ color |-> "TAGame.ProductAttribute_UserColor_TA", paint |-> "TAGame.ProductAttribute_Painted_TA",
              title |-> "TAGame.ProductAttribute_TitleID_TA", special |-> "TAGame.ProductAttribute_SpecialEdition_TA",
              team |-> "TAGame.ProductAttribute_TeamEdition_TA" ]
ProdId(idx, k) == IF PRODUCTS[k] \in DOMAIN idx THEN idx[PRODUCTS[k]] ELSE 0
\* product kind of an object id; a class the replay lacks falls back to object 0
ProdKind(idx, id) ==
  IF id = ProdId(idx, "color") THEN "color"
  ELSE IF id = ProdId(idx, "paint") THEN "paint"
  ELSE IF id = ProdId(idx, "title") THEN "title"
  ELSE IF id = ProdId(idx, "special") THEN "special"
  ELSE IF id = ProdId(idx, "team") THEN "team"
  ELSE "none"
=============================================================================
