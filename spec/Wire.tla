-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The encoding of messages: RFC 9420's presentation language as data.     *)
(* Grammar maps each structure to its parts; Parse decides whether a byte  *)
(* string is an encoding, and Build makes encodings, possibly deviating at *)
(* one place.  What a decoder must do with a byte string is decided by     *)
(* Parse alone, from the bytes.                                            *)
(*                                                                         *)
(*   u     n-byte number           enum  n-byte number out of s            *)
(*   op    opaque<V>               vec   T<V>        opt   optional<T>     *)
(*   str   fields in order         sel   by the value of an earlier field  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

U(n) == [k |-> "u", n |-> n]
Enum(n, s) == [k |-> "enum", n |-> n, s |-> s]
Op == [k |-> "op"]
Vec(t) == [k |-> "vec", t |-> t]
Opt(t) == [k |-> "opt", t |-> t]
Str(f) == [k |-> "str", f |-> f]
Sel(on, c) == [k |-> "sel", on |-> on, c |-> c]   \* c: sequence of <<value, type>>

Grammar ==
  [ u16 |-> U(2), u32 |-> U(4), u64 |-> U(8), op |-> Op, void |-> Str(<<>>),
    version |-> Enum(2, <<1>>), u16s |-> Vec("u16"), u32s |-> Vec("u32"), ops |-> Vec("op"),
    MLSMessage |-> Str(<< <<"ver", "version">>, <<"wf", "wireformat">>, <<"body", "wirebody">> >>),
    wireformat |-> Enum(2, <<1, 2, 3, 4, 5>>),
    wirebody |-> Sel("wf", << <<1, "PublicMessage">>, <<2, "PrivateMessage">>, <<3, "Welcome">>, <<4, "GroupInfo">>, <<5, "KeyPackage">> >>),
    KeyPackage |-> Str(<< <<"ver", "version">>, <<"suite", "u16">>, <<"init", "op">>, <<"leaf", "LeafNode">>,
                          <<"exts", "Exts">>, <<"sig", "op">> >>),
    Exts |-> Vec("Ext"), Ext |-> Str(<< <<"type", "u16">>, <<"data", "op">> >>),
    LeafNode |-> Str(<< <<"enc", "op">>, <<"sigkey", "op">>, <<"cred", "Credential">>, <<"caps", "Capabilities">>,
                        <<"src", "source">>, <<"info", "leafinfo">>, <<"exts", "Exts">>, <<"sig", "op">> >>),
    source |-> Enum(1, <<1, 2, 3>>),
    leafinfo |-> Sel("src", << <<1, "Lifetime">>, <<2, "void">>, <<3, "op">> >>),
    Lifetime |-> Str(<< <<"nb", "u64">>, <<"na", "u64">> >>),
    Credential |-> Str(<< <<"ct", "credtype">>, <<"body", "credbody">> >>),
    credtype |-> Enum(2, <<1, 2>>),
    credbody |-> Sel("ct", << <<1, "op">>, <<2, "ops">> >>),
    Capabilities |-> Str(<< <<"cv", "u16s">>, <<"cs", "u16s">>, <<"ce", "u16s">>, <<"cp", "u16s">>, <<"cc", "u16s">> >>),
    Welcome |-> Str(<< <<"suite", "u16">>, <<"secrets", "Entries">>, <<"info", "op">> >>),
    Entries |-> Vec("Entry"), Entry |-> Str(<< <<"ref", "op">>, <<"enc", "Sealed">> >>),
    Sealed |-> Str(<< <<"kem", "op">>, <<"ct", "op">> >>), Sealeds |-> Vec("Sealed"),
    PublicMessage |-> Str(<< <<"content", "FramedContent">>, <<"auth", "AuthData">>, <<"mtag", "memtag">> >>),
    FramedContent |-> Str(<< <<"gid", "op">>, <<"epoch", "u64">>, <<"sender", "Sender">>, <<"aad", "op">>,
                             <<"ctype", "contenttype">>, <<"body", "content">> >>),
    Sender |-> Str(<< <<"stype", "sendertype">>, <<"index", "senderindex">> >>),
    sendertype |-> Enum(1, <<1, 2, 3, 4>>),
    senderindex |-> Sel("stype", << <<1, "u32">>, <<2, "u32">>, <<3, "void">>, <<4, "void">> >>),
    contenttype |-> Enum(1, <<1, 2, 3>>),
    content |-> Sel("ctype", << <<1, "op">>, <<2, "Proposal">>, <<3, "Commit">> >>),
    AuthData |-> Str(<< <<"sig", "op">>, <<"tag", "confirmation">> >>),
    confirmation |-> Sel("ctype", << <<1, "void">>, <<2, "void">>, <<3, "op">> >>),
    memtag |-> Sel("stype", << <<1, "op">>, <<2, "void">>, <<3, "void">>, <<4, "void">> >>),
    PrivateMessage |-> Str(<< <<"gid", "op">>, <<"epoch", "u64">>, <<"ctype", "contenttype">>, <<"aad", "op">>,
                              <<"esd", "op">>, <<"ct", "op">> >>),
    PrivateContent |-> Str(<< <<"body", "content">>, <<"auth", "AuthData">> >>),  \* then padding
    Proposal |-> Str(<< <<"ptype", "proptype">>, <<"body", "propbody">> >>),
    proptype |-> Enum(2, <<1, 2, 3, 4, 5, 6, 7>>),
    propbody |-> Sel("ptype", << <<1, "KeyPackage">>, <<2, "LeafNode">>, <<3, "u32">>, <<4, "PSKID">>, <<5, "ReInit">>,
                                 <<6, "op">>, <<7, "Exts">> >>),
    PSKID |-> Str(<< <<"pt", "psktype">>, <<"id", "pskid">>, <<"nonce", "op">> >>), PSKIDs |-> Vec("PSKID"),
    psktype |-> Enum(1, <<1, 2>>),
    pskid |-> Sel("pt", << <<1, "op">>, <<2, "Resumption">> >>),
    Resumption |-> Str(<< <<"usage", "pskusage">>, <<"gid", "op">>, <<"epoch", "u64">> >>),
    pskusage |-> Enum(1, <<1, 2, 3>>),
    ReInit |-> Str(<< <<"gid", "op">>, <<"ver", "version">>, <<"suite", "u16">>, <<"exts", "Exts">> >>),
    Commit |-> Str(<< <<"props", "ProposalsOrRefs">>, <<"path", "optpath">> >>),
    ProposalsOrRefs |-> Vec("ProposalOrRef"),
    ProposalOrRef |-> Str(<< <<"pr", "propref">>, <<"body", "proprefbody">> >>),
    propref |-> Enum(1, <<1, 2>>),
    proprefbody |-> Sel("pr", << <<1, "Proposal">>, <<2, "op">> >>),
    optpath |-> Opt("UpdatePath"),
    UpdatePath |-> Str(<< <<"leaf", "LeafNode">>, <<"nodes", "PathNodes">> >>),
    PathNodes |-> Vec("PathNode"), PathNode |-> Str(<< <<"key", "op">>, <<"cts", "Sealeds">> >>),
    GroupInfo |-> Str(<< <<"ctx", "GroupContext">>, <<"exts", "Exts">>, <<"tag", "op">>, <<"signer", "u32">>, <<"sig", "op">> >>),
    GroupContext |-> Str(<< <<"ver", "version">>, <<"suite", "u16">>, <<"gid", "op">>, <<"epoch", "u64">>,
                            <<"treehash", "op">>, <<"confirmed", "op">>, <<"exts", "Exts">> >>),
    GroupSecrets |-> Str(<< <<"joiner", "op">>, <<"path", "optop">>, <<"psks", "PSKIDs">> >>), optop |-> Opt("op"),
    RatchetTree |-> Vec("optnode"), optnode |-> Opt("Node"),
    Node |-> Str(<< <<"nt", "nodetype">>, <<"body", "nodebody">> >>),
    nodetype |-> Enum(1, <<1, 2>>),
    nodebody |-> Sel("nt", << <<1, "LeafNode">>, <<2, "ParentNode">> >>),
    ParentNode |-> Str(<< <<"key", "op">>, <<"hash", "op">>, <<"unmerged", "u32s">> >>) ]

----------------------------------------------------------------------------
\* Parse(t, b, p, hi, env): where the value of type t starting at b[p] ends,
\* looking no further than b[hi]; 0 if there is none.  env: fields read so far.
RECURSIVE Num(_, _, _)
Num(b, p, n) == IF n = 0 THEN 0 ELSE Num(b, p, n - 1) * 256 + b[p + n - 1]
Bad == [p |-> 0, env |-> <<>>]
At(p, env) == [p |-> p, env |-> env]
SetEnv(env, f, v) == (f :> v) @@ env

\* Length prefix at p: [p |-> first byte after it, n |-> length], n = -1 if none.
Prefix(b, p, hi) ==
  IF p > hi THEN [p |-> 0, n |-> -1]
  ELSE LET c == b[p] \div 64
           m == IF c = 0 THEN 1 ELSE IF c = 1 THEN 2 ELSE 4
       IN IF c = 3 \/ p + m - 1 > hi THEN [p |-> 0, n |-> -1]
          ELSE LET v == IF c = 0 THEN b[p]
                        ELSE IF c = 1 THEN (b[p] - 64) * 256 + b[p+1]
                        ELSE (b[p] - 128) * 16777216 + Num(b, p + 1, 3)
               IN IF (c = 1 /\ v < 64) \/ (c = 2 /\ v < 16384) \/ p + m + v - 1 > hi THEN [p |-> 0, n |-> -1]
                  ELSE [p |-> p + m, n |-> v]

\* Selector values are small; wider numbers are never selected on.
RECURSIVE Parse(_, _, _, _, _), Fields(_, _, _, _, _), Elems(_, _, _, _, _)
Parse(t, b, p, hi, env) ==
  LET g == Grammar[t]
  IN CASE g.k = "u" -> IF p + g.n - 1 > hi THEN Bad ELSE At(p + g.n, env)
       [] g.k = "enum" -> IF p + g.n - 1 > hi THEN Bad
                          ELSE IF Num(b, p, g.n) \in {g.s[i] : i \in 1..Len(g.s)} THEN At(p + g.n, env) ELSE Bad
       [] g.k = "op" -> LET x == Prefix(b, p, hi) IN IF x.n < 0 THEN Bad ELSE At(x.p + x.n, env)
       [] g.k = "vec" -> LET x == Prefix(b, p, hi) IN IF x.n < 0 THEN Bad ELSE Elems(g.t, b, x.p, x.p + x.n - 1, env)
       [] g.k = "opt" -> IF p > hi THEN Bad ELSE IF b[p] = 0 THEN At(p + 1, env)
                         ELSE IF b[p] = 1 THEN Parse(g.t, b, p + 1, hi, env) ELSE Bad
       [] g.k = "str" -> Fields(g.f, b, p, hi, env)
       [] g.k = "sel" -> LET c == {i \in 1..Len(g.c) : g.c[i][1] = env[g.on]}
                         IN IF c = {} THEN Bad ELSE Parse(g.c[CHOOSE i \in c : TRUE][2], b, p, hi, env)
Fields(f, b, p, hi, env) ==
  IF f = <<>> THEN At(p, env)
  ELSE LET name == Head(f)[1] t == Head(f)[2] g == Grammar[t]
           r == Parse(t, b, p, hi, env)
       IN IF r.p = 0 THEN Bad
          ELSE Fields(Tail(f), b, r.p, hi, IF g.k = "enum" THEN SetEnv(r.env, name, Num(b, p, g.n)) ELSE r.env)
Elems(t, b, p, hi, env) ==
  IF p > hi THEN At(p, env)
  ELSE LET r == Parse(t, b, p, hi, env) IN IF r.p = 0 THEN Bad ELSE Elems(t, b, r.p, hi, r.env)

Env0 == [none |-> 0]
IsA(t, b) == Parse(t, b, 1, Len(b), Env0).p = Len(b) + 1
Accepts(wf, b) == IsA("MLSMessage", b) /\ Num(b, 3, 2) = wf

----------------------------------------------------------------------------
\* Build(t, d, i, env): an encoding of t.  Places are numbered from i; at
\* place d.at the deviation d.how applies.  base[f] gives the number at an
\* enumeration, base.op the length of byte strings, base.vec of vectors.
Big(v, n) == [j \in 1..n |-> IF n - j > 2 THEN 0 ELSE (v \div 256^(n - j)) % 256]
Pre(n) == IF n < 64 THEN <<n>> ELSE IF n < 16384 THEN <<64 + (n \div 256), n % 256>>
          ELSE <<128>> \o Big(n, 3)
Bytes(n, x) == [j \in 1..n |-> (x * 37 + j * 11) % 256]
Lens == {"len2", "len4", "len8", "up", "down", "huge", "wide"}
LenPrefix(how, n) ==
  CASE how = "len2" -> <<64 + ((n \div 256) % 64), n % 256>>
    [] how = "len4" -> <<128>> \o Big(n, 3)
    [] how = "len8" -> <<192, 0, 0, 0>> \o Big(n, 4)
    [] how = "up" -> Pre(n + 1)
    [] how = "down" -> Pre(IF n = 0 THEN 0 ELSE n - 1)
    [] how = "huge" -> <<191, 255, 255, 255>>
    [] how = "wide" -> <<127, 255>>
    [] OTHER -> Pre(n)
OpHows == Lens \cup {"n0", "n1", "n63", "n64", "n65"}
VecHows == Lens \cup {"n0", "n1", "n2", "n40", "crumb"}
NumHows == {"min", "max", "grease"}
EnumHows == {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "max", "grease"}
OptHows == {"absent", "p2", "p255"}
AllHows == OpHows \cup VecHows \cup NumHows \cup EnumHows \cup OptHows
HowsOf(k) == CASE k = "op" -> OpHows [] k = "vec" -> VecHows [] k = "u" -> NumHows [] k = "enum" -> EnumHows [] OTHER -> OptHows

SizeOf(how, dflt) == CASE how = "n0" -> 0 [] how = "n1" -> 1 [] how = "n2" -> 2 [] how = "n40" -> 40 [] how = "n63" -> 63
                       [] how = "n64" -> 64 [] how = "n65" -> 65 [] OTHER -> dflt
EnumOf(how, n, dflt) == CASE how = "v0" -> 0 [] how = "v1" -> 1 [] how = "v2" -> 2 [] how = "v3" -> 3 [] how = "v4" -> 4
                          [] how = "v5" -> 5 [] how = "v6" -> 6 [] how = "v7" -> 7 [] how = "v8" -> 8
                          [] how = "max" -> 256^n - 1 [] how = "grease" -> IF n = 1 THEN 10 ELSE 2570 [] OTHER -> dflt
Made(b, i, env) == [b |-> b, i |-> i, env |-> env]
BaseOf(base, f, dflt) == IF f \in DOMAIN base THEN base[f] ELSE dflt

RECURSIVE Build(_, _, _, _, _, _), BuildF(_, _, _, _, _, _), BuildN(_, _, _, _, _, _, _)
Build(t, name, base, D, i, env0) ==
  LET g == Grammar[t]
      how == IF \E d \in D : d.at = i THEN (CHOOSE d \in D : d.at = i).how ELSE ""
      env == IF how = "?" /\ g.k \notin {"str", "sel"} THEN SetEnv(env0, "kind", g.k) ELSE env0
  IN CASE g.k = "u" -> Made(CASE how = "min" -> [j \in 1..g.n |-> 0] [] how = "max" -> [j \in 1..g.n |-> 255]
                              [] how = "grease" -> [j \in 1..g.n |-> 10] [] OTHER -> Big(1 + i, g.n), i + 1, env)
       [] g.k = "enum" -> LET v == EnumOf(how, g.n, BaseOf(base, name, g.s[1]))
                          IN Made(Big(v, g.n), i + 1, SetEnv(env, name, v))
       [] g.k = "op" -> LET n == SizeOf(how, base.op) IN Made(LenPrefix(how, n) \o Bytes(n, i), i + 1, env)
       [] g.k = "vec" -> LET r == BuildN(g.t, base, D, i + 1, env, SizeOf(how, base.vec), <<>>)
                             c == IF how = "crumb" THEN Append(r.b, 0) ELSE r.b
                         IN Made(LenPrefix(how, Len(c)) \o c, r.i, r.env)
       [] g.k = "opt" -> IF how = "absent" \/ (base.opt = 0 /\ how = "") THEN Made(<<0>>, i + 1, env)
                         ELSE LET r == Build(g.t, name, base, D, i + 1, env)
                              IN Made(<<CASE how = "p2" -> 2 [] how = "p255" -> 255 [] OTHER -> 1>> \o r.b, r.i, r.env)
       [] g.k = "str" -> BuildF(g.f, base, D, i, env, <<>>)
       [] g.k = "sel" -> LET c == {j \in 1..Len(g.c) : g.c[j][1] = env[g.on]}
                             j == IF c = {} THEN 1 ELSE CHOOSE h \in c : TRUE
                         IN Build(g.c[j][2], name, base, D, i, env)
BuildF(f, base, D, i, env, acc) ==
  IF f = <<>> THEN Made(acc, i, env)
  ELSE LET r == Build(Head(f)[2], Head(f)[1], base, D, i, env) IN BuildF(Tail(f), base, D, r.i, r.env, acc \o r.b)
BuildN(t, base, D, i, env, n, acc) ==
  IF n = 0 THEN Made(acc, i, env)
  ELSE LET r == Build(t, "", base, D, i, env) IN BuildN(t, base, D, r.i, r.env, n - 1, acc \o r.b)
=============================================================================
