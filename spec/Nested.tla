------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Encodings that are wrong at one place inside a message of a member: in  *)
(* the public message, in the encrypted content, in the private message    *)
(* around it.  Signatures, tags and encryption are all right; only the     *)
(* bytes are not the encoding of what they stand for, so the message is    *)
(* refused (module Wire: an encoding is unique).                           *)
(***************************************************************************)
EXTENDS Framing

CONSTANTS Sites   \* number of places tried
W == INSTANCE Wire

Hows == {"len2", "len4", "len8", "up", "down", "huge", "crumb", "p2", "p255", "zero", "max"}
Where(x) == IF x[3] = "pub" THEN {"n.pub"} ELSE {"n.content", "n.priv"}
AtPlace(i, h) == ToString(i) \o ":" \o h
Gram == [a |-> "grammar", g |-> W!Grammar]

NestAll(s, x, c) ==
  \E q \in {SetToSeq({D \in {{<<f, AtPlace(i, h)>>} : f \in Where(x), i \in 0..Sites, h \in Hows} : Draw(Rate)})} :
  LET tm == <<Gram>> \o (IF x[5] = <<>> THEN <<>> ELSE <<Tmpl(1, x[5])>>)
      fl(D) == Flaw(c, x[1], D, Refuse("encoding"), IF x[5] = <<>> THEN 0 ELSE 1, E0, x[4])
  IN \E cut \in {Cut([i \in 1..Len(q) |-> fl(q[i])])} :
       \A i \in 1..Len(cut) : Emit(Rest(c, [s EXCEPT !.hist = @ \o tm \o cut[i]]).hist)

NestNext == (\A x \in Msgs(w), c \in {1, 2} : x[1] # "appwire" => NestAll(w, x, c)) /\ UNCHANGED w
NestSpec == Init /\ [][NestNext]_w
=============================================================================
