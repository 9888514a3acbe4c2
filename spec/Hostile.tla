------------------------------ MODULE Hostile ------------------------------
(* A connection that delivers corrupted packets. What exactly the node does *)
(* with each of them is left open, so the state is what the connection may  *)
(* be in (a set); what is not left open: the node lives, its memory stays   *)
(* in proportion to what was sent, the other connections are served, and    *)
(* the chain changes only by blocks that may have been asked for.           *)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Goals,     \* states the connection is brought into
          Depth      \* corrupted packets on one connection, at most

\* "inside": in the middle of a packet, after one with a wrong length
States == {"before", "normal", "syncing", "fetching", "inside", "closed"}

(* The packets: the commands and notifications of the protocol; "block" and *)
(* "body" deliver a block that was announced and requested and which, or    *)
(* one of whose transactions, is corrupted itself; "stream" is anything.    *)
Commands == {"handshake", "timedsync"}
Notes == {"newblock", "newtxs", "ask", "objects", "chain", "entry", "pool", "lite"}
Kinds == Commands \cup Notes \cup {"block", "block4", "body", "stream"}

(* Where and how they are corrupted.                                        *)
Whole == {"zero", "one", "less", "more", "huge", "max", "flip", "rand"}
Shape == {"cut", "cutin", "twice", "gone", "insert"}
Frame == {"signature", "length", "expects", "command", "code", "flags", "version"}
Fields == {"head", "count", "namelen", "name", "type", "size", "items", "number", "blob"}
Places(k) ==
  IF k = "stream" THEN {<<"stream", "any", h>> : h \in {"random", "signed", "unknown", "response", "empty", "headers"}}
  ELSE IF k \in {"block", "block4", "body"} THEN {<<"inner", "any", h>> : h \in (Whole \ {"less", "more"}) \cup Shape \cup {"varint"}}
  ELSE {<<"frame", c, h>> : c \in Frame, h \in Whole}
       \cup {<<"frame", "any", h>> : h \in {"cut", "cutin", "twice"}}
       \cup {<<"fields", c, h>> : c \in Fields, h \in Whole \cup Shape}
       \cup {<<"fields", "type", "retype">>}
       \cup {<<"fields", c, "wide">> : c \in {"count", "size", "items"}}
       \cup {<<"bytes", "any", h>> : h \in {"flip", "rand", "cut", "gone", "insert", "none"}}

VARIABLES may,       \* what the connection may be in
          chain,     \* whether the chain may have grown
          hits,      \* corrupted packets so far
          act
vars == <<may, chain, hits, act>>

Init == /\ \E g \in Goals : may = {g} /\ act = [k |-> "reach", goal |-> g]
        /\ chain = "same" /\ hits = 0

\* a packet that certainly is no packet, with what follows it
Fatal(p) == p[1] = "frame" /\ (p[2] = "signature" \/ (p[2] = "length" /\ p[3] = "max"))
Gates(k, p) == k \in Notes \cup {"block", "block4", "body"} /\ p[1] # "frame" /\ p[1] # "stream"

(* What may become of each state.                                           *)
After(s, k, p) ==
  IF s = "closed" THEN {"closed"}
  ELSE IF s = "inside" THEN States
  ELSE IF Fatal(p) THEN {"closed"}
  ELSE IF p[1] = "frame" /\ p[2] = "length" THEN (States \ {"fetching"}) \cup {s}
  ELSE IF s = "before" THEN
       IF Gates(k, p) THEN {"closed"}
       ELSE IF k = "handshake" THEN States \ {"fetching", "inside"}
       ELSE {"before", "closed"} \cup (IF k = "stream" THEN {"inside"} ELSE {})
  ELSE IF k \in {"entry", "objects", "block", "block4", "body"} THEN States \ {"before", "inside"}
  ELSE IF k = "timedsync" THEN {s, "syncing", "normal", "closed"}
  ELSE {s, "closed"} \cup (IF k = "stream" THEN States \ {"before"} ELSE {})

Asked == may \cap {"fetching", "inside"} # {}

Met == {"normal", "syncing", "fetching", "inside"}

Hit(k, p) ==
  /\ hits < Depth /\ may # {"closed"} /\ chain = "same"
  /\ may' = UNION {After(s, k, p) : s \in may}
  /\ chain' = IF (Asked /\ k \in {"objects", "stream"}) \/ (k \in {"block", "block4", "body"} /\ may \cap Met # {}) THEN "grown" ELSE "same"
  /\ hits' = hits + 1
  /\ act' = [k |-> k, where |-> p[1], cls |-> p[2], how |-> p[3]]

Next == \E k \in Kinds : \E p \in Places(k) : Hit(k, p)
Spec == Init /\ [][Next]_vars
View == <<may, chain, hits>>

TypeOK == may \subseteq States /\ may # {} /\ chain \in {"same", "grown"}
\* the chain is safe from connections that never were asked for blocks
NotAsked == [][chain' # chain => may \cap Met # {}]_vars
\* nothing but a handshake leads out of the state before it
Gated == [][may = {"before"} /\ act'.k # "handshake" => may' \subseteq {"before", "closed", "inside"} \/ act'.where = "frame"]_vars

K(m, c, h) == [may |-> m, chain |-> c, hits |-> h]
Emit == PrintT(ToJson([s |-> K(may, chain, hits), a |-> act', mute |-> may' = {"closed"} /\ "inside" \notin may, t |-> K(may', chain', hits')]))
EmitInit == hits > 0 \/ PrintT(ToJson([init |-> K(may, chain, hits), goal |-> act.goal]))
=============================================================================
