------------------------------- MODULE Peer --------------------------------
(* One connection of a node, as the two sides can observe it: what the node *)
(* does with every message the peer sends, what it writes, when it closes   *)
(* the connection and what happens to its chain.                            *)
(*                                                                          *)
(* Blocks are numbers: 0 the genesis block, n < 1000 block n of the main    *)
(* chain, 1000+n an invalid block after block n-1 of the main chain, 2000+n *)
(* a valid block after block n-1 that is not block n, 3000 a hash that      *)
(* belongs to no block.                                                     *)
(* Heights are numbers; Max stands for the greatest 32 bit number, heights  *)
(* close to it are mapped accordingly.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,     \* "handshake", "sync" or "honest": which messages are sent
          Role,     \* "incoming" or "outgoing"
          Owns,     \* lengths of the node's own chain to start with (without genesis)
          Remotes,  \* index of the top block of an honest peer
          Zone,     \* index of the last checkpoint, 0: none
          Choices,  \* sizes of announcements of an honest peer
          Hostile,  \* honest mode: some deliveries and announcements go wrong
          Events,   \* how often the peer's chain grows, and others extend the node's chain
          Depth     \* bound on the length of histories, 0: none

Max == 1000000
Limit == 128        \* blocks per request
Behind == 10        \* blocks a peer may be behind inside the zone

VARIABLES s,        \* the connection, see Fresh
          env,      \* the peer and the rest of the world, see Env
          act       \* the last step: message, what was written, verdict
vars == <<s, env, act>>

Fresh(own) == [ chain |-> [i \in 1..own |-> i], st |-> IF Role = "incoming" THEN "before" ELSE "dial",
                needed |-> <<>>, req |-> <<>>, remote |-> 0, last |-> 0 ]

Last(q) == q[Len(q)]
Tip(c) == IF c = <<>> THEN 0 ELSE Last(c)
Index(b) == b % 1000
On(c, b) == \/ b = 0
            \/ b # 3000 /\ Index(b) <= Len(c) /\ c[Index(b)] = b
Prev(b) == Index(b) - 1
Valid(b) == b < 1000 \/ b > 2000
Txs(b) == IF b < 9 THEN b % 3 ELSE IF b % 100 = 1 THEN 1 ELSE 0

RECURSIVE Down(_, _)
Down(n, k) == IF k >= n THEN <<>> ELSE <<n - k>> \o Down(n, 2 * k)
\* the blocks of a chain request, by their index
Sparse(c) == LET n == Len(c) IN <<n>> \o Down(n, 1) \o (IF n > 0 THEN <<0>> ELSE <<>>)

----------------------------------------------------------------------------
(* What the node writes.                                                    *)
Out(k, ids, h) == [k |-> k, ids |-> ids, h |-> h]
AskChain(c) == Out("chain", [i \in 1..Len(Sparse(c)) |-> LET x == Sparse(c)[i] IN IF x = 0 THEN 0 ELSE c[x]], 0)
AskBlocks(ids) == Out("blocks", ids, 0)
Answer(k, c) == Out(k, <<Tip(c)>>, Len(c) + 1)
Hello(c) == Out("hello", <<Tip(c)>>, Len(c) + 1)

(* The outcome of a step: the new state, what was written, in this order.   *)
(* free: whether the connection is closed is left open.                     *)
Res(x, out) == [s |-> x, out |-> out, free |-> FALSE]
Shut(x) == Res([x EXCEPT !.st = "closed", !.needed = <<>>, !.req = <<>>, !.remote = 0, !.last = 0], <<>>)
Ignored(x) == Res(x, <<>>)
Whatever(x) == [s |-> x, out |-> <<>>, free |-> TRUE]

(* A required synchronisation starts with a chain request.                  *)
Started(r) == IF r.s.st = "required"
              THEN [r EXCEPT !.s.st = "syncing", !.out = @ \o <<AskChain(r.s.chain)>>]
              ELSE r

InZone(h) == Zone > 0 /\ h <= Zone
TooDeep(x, h) == LET height == Len(x.chain) + 1 IN h < height /\ height - h > Behind /\ InZone(h)

(* What a peer tells about its top block; "closed" if it is refused.        *)
Sync(x, top, h) ==
  IF x.st = "syncing" THEN [x EXCEPT !.remote = h]
  ELSE IF On(x.chain, top) THEN [x EXCEPT !.st = "normal", !.remote = h]
  ELSE IF TooDeep(x, h) THEN [x EXCEPT !.st = "closed"]
  ELSE [x EXCEPT !.st = "required", !.remote = h]

Handshake(x, m) ==
  IF m.net # "ours" \/ x.st # "before" \/ Role # "incoming" THEN Shut(x)
  ELSE LET y == Sync(x, m.top, m.h)
       IN IF y.st = "closed" THEN Shut(x) ELSE Started(Res(y, <<Answer("handshake", y.chain)>>))

TimedSync(x, m) ==
  IF x.st = "before" THEN Res(x, <<Answer("timedsync", x.chain)>>)
  ELSE LET y == Sync(x, m.top, m.h)
       IN IF y.st = "closed" THEN Shut(x) ELSE Started(Res(y, <<Answer("timedsync", y.chain)>>))

(* The answer an outgoing connection waits for.                             *)
Answered(x, m) ==
  IF m.k # "answer" \/ m.cmd # "handshake" \/ ~m.resp \/ m.body # "good" \/ m.net # "ours" \/ m.ver < 0 THEN Shut(x)
  ELSE LET y == Sync(x, m.top, m.h)
       IN IF y.st = "closed" THEN Shut(x) ELSE Started(Res(y, <<>>))

(* The next request after an announcement (known = FALSE) or a delivery.    *)
RECURSIVE Pick(_, _, _, _)
Pick(c, needed, picked, known) ==
  IF needed = <<>> \/ Len(picked) = Limit THEN [picked |-> picked, rest |-> needed]
  ELSE Pick(c, Tail(needed), IF known /\ On(c, Head(needed)) THEN picked ELSE Append(picked, Head(needed)), known)

Request(x, known) ==
  LET n == IF Len(x.needed) < Limit THEN Len(x.needed) ELSE Limit
      p == IF \A i \in 1..n : ~(known /\ On(x.chain, x.needed[i]))
           THEN [picked |-> SubSeq(x.needed, 1, n), rest |-> SubSeq(x.needed, n + 1, Len(x.needed))]
           ELSE Pick(x.chain, x.needed, <<>>, known)
  IN IF p.picked # <<>>
     THEN Res([x EXCEPT !.needed = p.rest, !.req = @ \o p.picked], <<AskBlocks(p.picked)>>)
     ELSE IF x.last + 1 < x.remote THEN Res([x EXCEPT !.needed = <<>>], <<AskChain(x.chain)>>)
     ELSE Res([x EXCEPT !.needed = <<>>, !.st = "normal"], <<>>)

RECURSIVE KnownFrom(_, _, _)
KnownFrom(c, ids, i) == IF i <= Len(ids) /\ On(c, ids[i]) THEN KnownFrom(c, ids, i + 1) ELSE i - 1
KnownPrefix(c, ids) == KnownFrom(c, ids, 1)

Announcement(x, m) ==
  LET n == Len(m.ids)
      last == m.start + n - 1
  IN IF n = 0 THEN Shut(x)
     ELSE IF ~On(x.chain, m.ids[1]) \/ last > Max \/ last > m.total THEN Shut(x)
     ELSE Request([x EXCEPT !.remote = m.total, !.last = last,
                            !.needed = SubSeq(m.ids, KnownPrefix(x.chain, m.ids) + 1, n), !.req = <<>>], FALSE)

(* A delivery is a sequence of blocks with their bodies: "right", "less",   *)
(* "more", "other" (the right number) or "cut" (the block is not decodable).*)
Without(q, e) == LET i == CHOOSE j \in 1..Len(q) : q[j] = e /\ \A l \in 1..(j-1) : q[l] # e
                 IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Left(_, _)
Left(req, bl) == IF bl = <<>> THEN [ok |-> TRUE, left |-> req]
                 ELSE IF Head(bl).bod \in {"cut", "less", "more"} THEN [ok |-> FALSE, left |-> req]
                 ELSE IF \E i \in 1..Len(req) : req[i] = Head(bl).b THEN Left(Without(req, Head(bl).b), Tail(bl))
                 ELSE [ok |-> FALSE, left |-> req]

RECURSIVE Process(_, _)
Process(c, bl) ==
  IF bl = <<>> THEN [c |-> c, v |-> "all"]
  ELSE LET e == Head(bl)
       IN IF On(c, e.b) THEN [c |-> c, v |-> "exists"]
          ELSE IF Prev(e.b) = Tip(c) /\ Valid(e.b) /\ e.bod = "right" THEN Process(Append(c, e.b), Tail(bl))
          ELSE [c |-> c, v |-> "refused"]

Delivery(x, m) ==
  LET l == IF [i \in 1..Len(m.bl) |-> m.bl[i].b] = x.req /\ \A i \in 1..Len(m.bl) : m.bl[i].bod = "right"
           THEN [ok |-> TRUE, left |-> <<>>] ELSE Left(x.req, m.bl)
      p == Process(x.chain, m.bl)
  IN IF m.bl = <<>> \/ m.h < x.last THEN Shut(x)
     ELSE IF ~l.ok \/ l.left # <<>> THEN Shut(x)
     ELSE IF p.v = "all" THEN Request([x EXCEPT !.chain = p.c, !.req = <<>>, !.remote = m.h], TRUE)
     ELSE IF p.v = "exists" THEN Res([x EXCEPT !.chain = p.c, !.req = <<>>, !.needed = <<>>, !.remote = m.h, !.st = "idle"], <<>>)
     ELSE Shut([x EXCEPT !.chain = p.c])

IsNotification(m) == m.k \in {"announce", "deliver", "askchain", "note"}

Handle(x, m) ==
  IF m.k = "junk" THEN Shut(x)
  ELSE IF x.st = "dial" THEN Answered(x, m)
  ELSE IF x.st = "before" /\ IsNotification(m) THEN Shut(x)
  ELSE CASE m.k = "handshake" -> Handshake(x, m)
         [] m.k = "timedsync" -> TimedSync(x, m)
         [] m.k = "announce"  -> Announcement(x, m)
         [] m.k = "deliver"   -> Delivery(x, m)
         [] m.k = "askchain"  -> IF m.sub = "ours" THEN Ignored(x) ELSE Shut(x)
         [] m.k = "note"      -> IF m.sub = "plain" THEN Ignored(x) ELSE Whatever(x)
         [] m.k = "command"   -> Whatever(x)
         [] OTHER             -> Whatever(x)

----------------------------------------------------------------------------
(* The messages.                                                            *)
Hs(net, id, top, h) == [k |-> "handshake", net |-> net, id |-> id, top |-> top, h |-> h]
Ts(top, h) == [k |-> "timedsync", top |-> top, h |-> h]
Ann(ids, start, total) == [k |-> "announce", ids |-> ids, start |-> start, total |-> total]
Del(bl, h) == [k |-> "deliver", bl |-> bl, h |-> h]
Reply(cmd, resp, body, net, ver, id, top, h) ==
  [k |-> "answer", cmd |-> cmd, resp |-> resp, body |-> body, net |-> net, ver |-> ver, id |-> id, top |-> top, h |-> h]
Sub(k, sub) == [k |-> k, sub |-> sub]

Junk == {Sub("junk", x) : x \in {"signature", "oversize", "header", "body"}}
Others == {Sub("note", x) : x \in {"plain", "unknown", "malformed"}}
          \cup {Sub("command", x) : x \in {"unknown", "ping", "notification", "malformed", "response"}}
          \cup {Sub("askchain", x) : x \in {"ours", "none", "foreign"}}

Range(q) == {q[i] : i \in 1..Len(q)}
Right(ids) == [i \in 1..Len(ids) |-> [b |-> ids[i], bod |-> "right"]]

(* ---- mode "handshake": everything around the handshake *)
\* heights that matter, from both sides of every bound
Heights(x) == LET n == Len(x.chain) + 1
              IN {h \in {0, 1, n - Behind - 2, n - Behind - 1, n - Behind, n - 1, n, n + 1, Zone, Zone + 1, Max - 1, Max} : h >= 0}
Tops(x) == {0, Tip(x.chain), 3000, Tip(x.chain) + 1}
HandshakeMsgs(x) ==
  {Hs(net, id, top, h) : net \in {"ours", "other"}, id \in {0, 7}, top \in Tops(x), h \in Heights(x)}
  \cup {Ts(top, h) : top \in Tops(x), h \in Heights(x)}
  \cup Junk \cup Others
  \cup {Ann(<<0, 3000>>, 0, 5), Ann(<<>>, 0, 5), Del(<<>>, 5), Del(Right(<<Tip(x.chain) + 1>>), 5)}
ReplyMsgs(x) ==
  {Reply(cmd, resp, body, net, ver, 7, top, h) :
      cmd \in {"handshake", "timedsync"}, resp \in BOOLEAN, body \in {"good", "cut", "empty"}, net \in {"ours", "other"},
      ver \in {-1, 0, 1, 100}, top \in {Tip(x.chain), 3000}, h \in {Len(x.chain) + 1}}
  \cup {Reply("handshake", TRUE, "good", "ours", ver, id, top, h) : ver \in {0, 1}, id \in {7, 8}, top \in Tops(x), h \in Heights(x)}
  \cup {Ann(<<0, 3000>>, 0, 5), Ts(3000, 5), Sub("note", "plain")} \cup Junk

(* ---- mode "sync": a hostile peer and a short chain *)
Lists == { <<>>, <<0>>, <<0, 1>>, <<0, 1, 2>>, <<0, 1, 2, 3>>, <<1, 2>>, <<2, 3>>, <<3, 4>>, <<0, 2, 1>>,
           <<0, 3000>>, <<3000, 1>>, <<0, 1, 1002>>, <<0, 1, 1002, 3>>, <<1, 2, 1003>>, <<0, 2001>>, <<0, 1, 2, 2002>>,
           <<1, 2002, 3>> }
\* what is announced while blocks are still on their way
Late == { <<>>, <<0>>, <<0, 1>>, <<1, 3000>>, <<3000>> }
AnnMsgs(x) ==
  UNION { LET i0 == IF l = <<>> THEN 0 ELSE Index(l[1])
              e == i0 + Len(l) - 1
          IN {Ann(l, i0, t) : t \in {y \in (IF l = <<0, 1>> THEN {e - 1, e, e + 1, 6, Max} ELSE IF Len(l) < 3 THEN {e - 1, e, 6} ELSE {e - 1, 6}) : y >= 0}}
             \cup (IF l = <<0, 1, 2>> THEN {Ann(l, i0 + 3, 4), Ann(l, Max, Max), Ann(l, Max - 1, Max)} ELSE {})
        : l \in IF x.req = <<>> THEN Lists ELSE Late }
Mutations(r) ==
  LET n == Len(r)
      R == Right(r)
      bod(i, v) == [R EXCEPT ![i].bod = v]
  IN {R, <<>>, Right(<<1>>), Right(<<4>>), R \o Right(<<4>>), R \o Right(<<2001>>)}
     \cup (IF n = 0 THEN {} ELSE {Tail(R), SubSeq(R, 1, n - 1), R \o <<R[1]>>, <<R[1]>> \o R, [i \in 1..n |-> R[n + 1 - i]], Tail(R) \o <<R[n]>>})
     \cup UNION {{bod(i, "cut"), bod(i, "more")} \cup (IF Txs(r[i]) > 0 THEN {bod(i, "less"), bod(i, "other")} ELSE {}) : i \in 1..n}
Deliveries(x) == {bl \in Mutations(x.req) : \A i \in 1..Len(bl) : bl[i].b # 3000}
DelMsgs(x) == {Del(bl, h) : bl \in Deliveries(x), h \in {x.last}} \cup
              {Del(bl, h) : bl \in Deliveries(x) \cap {Right(x.req)}, h \in {y \in {x.last - 1, x.last, x.last + 1, 6, 0} : y >= 0 /\ y <= Max}}
SyncMsgs(x) ==
  IF x.st = "before" THEN {Hs("ours", 7, 3000, 5), Hs("ours", 7, 0, 1), Hs("ours", 0, 4, 5)}
  ELSE IF x.st = "dial" THEN {Reply("handshake", TRUE, "good", "ours", 0, 7, 3000, 5), Reply("handshake", TRUE, "good", "ours", 1, 7, 0, 1)}
  ELSE AnnMsgs(x) \cup DelMsgs(x) \cup {Ts(0, 1), Ts(3000, 6)}
       \cup (IF x.last = 0 THEN Others \cup Junk \cup {Hs("ours", 7, 0, 1), Hs("other", 9, 3000, 1), Ts(4, 5)}
             ELSE {Sub("junk", "signature"), Sub("askchain", "none"), Sub("command", "malformed")})

(* ---- mode "honest": the peer answers every request truthfully            *)
(* env: top of the peer's chain, the request it has not answered yet, how   *)
(* often the peer's chain grows and others extend the node's chain.         *)
Env(rc) == [rc |-> rc, k |-> "none", ids |-> <<>>, grow |-> Events, meanwhile |-> Events]
None(e) == [e EXCEPT !.k = "none", !.ids = <<>>]
Pending(e, out) == LET r == SelectSeq(out, LAMBDA o : o.k \in {"chain", "blocks"})
                   IN IF r = <<>> THEN e ELSE [e EXCEPT !.k = Last(r).k, !.ids = Last(r).ids]
Seq1(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Common(e) == LET i == CHOOSE j \in 1..Len(e.ids) : e.ids[j] <= e.rc /\ \A l \in 1..(j-1) : e.ids[l] > e.rc IN e.ids[i]
HonestAnswers(e) ==
  CASE e.k = "none" -> {}
    [] e.k = "chain" -> {Ann(Seq1(Common(e), IF Common(e) + n - 1 < e.rc THEN Common(e) + n - 1 ELSE e.rc), Common(e), e.rc + 1) : n \in Choices}
    [] e.k = "blocks" -> {Del(Right(e.ids), e.rc + 1)}
HonestSync(x, e) == IF x.st = "before" THEN {Hs("ours", 7, e.rc, e.rc + 1)}
                    ELSE IF x.st = "dial" THEN {Reply("handshake", TRUE, "good", "ours", 1, 7, e.rc, e.rc + 1)}
                    ELSE {Ts(e.rc, e.rc + 1)}
HostileMsgs(x, e) ==
  IF ~Hostile THEN {}
  ELSE (IF e.k = "blocks" THEN
        LET r == e.ids
            n == Len(r)
            R == Right(r)
        IN {Del(bl, e.rc + 1) : bl \in {Tail(R), SubSeq(R, 1, n - 1), <<R[n]>> \o SubSeq(R, 1, n - 1), [R EXCEPT ![n].bod = "cut"],
                                        [R EXCEPT ![1 + n \div 2].bod = "more"], R \o <<R[n]>>, [R EXCEPT ![n] = R[1]]}
                                  \cup (IF x.needed # <<>> THEN {R \o Right(<<x.needed[1]>>), Right(x.needed), R \o Right(x.needed)} ELSE {})}
           \cup {Del(R, x.last - 1), Del(R, x.last)}
        ELSE IF e.k = "chain" THEN {Ann(Seq1(Common(e), e.rc), Common(e), e.rc - 1), Ann(Seq1(Common(e), e.rc), Common(e), e.rc),
                                    Ann(<<3000>> \o Seq1(1, e.rc), 0, e.rc + 1)}
             \* blocks of the first batch again, after more than one batch
             \cup (IF e.rc - Common(e) > Limit
                   THEN {Ann(Seq1(Common(e), e.rc) \o q, Common(e), e.rc + 5) : q \in {<<Common(e) + 1>>, <<Common(e) + 2, Common(e) + Limit>>}} ELSE {})
        ELSE {})

----------------------------------------------------------------------------
Init == /\ \E own \in Owns, rc \in (IF Mode = "honest" THEN Remotes ELSE {0}) :
             /\ Mode = "honest" => own <= rc
             /\ s = Fresh(own)
             /\ env = Env(rc)
        /\ act = [n |-> 0, m |-> Sub("init", ""), out |-> <<>>, free |-> FALSE]

Open == s.st # "closed"

Step(m) ==
  LET r == Handle(s, m)
  IN /\ s' = r.s
     /\ act' = [n |-> IF Depth = 0 THEN 0 ELSE act.n + 1, m |-> m, out |-> r.out, free |-> r.free]

(* Others add a block to the node's chain. *)
Meanwhile(n) ==
  /\ s' = [s EXCEPT !.chain = @ \o [i \in 1..n |-> Len(@) + i]]
  /\ act' = [n |-> act.n, m |-> [k |-> "meanwhile", to |-> Len(s.chain) + n], out |-> <<>>, free |-> FALSE]

InBounds == Depth = 0 \/ act.n < Depth

HostileNext ==
  /\ Open /\ InBounds
  /\ \/ \E m \in (IF Mode = "handshake" THEN (IF s.st = "dial" THEN ReplyMsgs(s) ELSE HandshakeMsgs(s)) ELSE SyncMsgs(s)) : Step(m)
     \/ Mode = "sync" /\ s.st \notin {"before", "dial"} /\ Len(s.chain) < 4 /\ s.chain = Seq1(1, Len(s.chain)) /\ Meanwhile(1)
  /\ UNCHANGED env

Answers == /\ Open
           /\ \E m \in HonestAnswers(env) : Step(m)
           /\ env' = Pending(None(env), act'.out)
Tells == /\ Open
         /\ \E m \in HonestSync(s, env) : Step(m)
         /\ env' = Pending(env, act'.out)
Grows == /\ Open /\ env.grow > 0 /\ s.st # "before"
         /\ \E g \in {1, 130} : env' = [env EXCEPT !.rc = @ + g, !.grow = @ - 1]
         /\ s' = s
         /\ act' = [n |-> 0, m |-> Sub("grows", ""), out |-> <<>>, free |-> FALSE]
Extends == /\ Open /\ env.meanwhile > 0 /\ s.st \notin {"before", "dial"}
           /\ \E n \in {1, 100, env.rc - Len(s.chain)} : n > 0 /\ Len(s.chain) + n <= env.rc /\ Meanwhile(n)
           /\ env' = [env EXCEPT !.meanwhile = @ - 1]
Misbehaves == /\ Open
              /\ \E m \in HostileMsgs(s, env) : Step(m)
              /\ env' = IF s'.st = "closed" THEN None(env) ELSE Pending(None(env), act'.out)

Next == IF Mode = "honest" THEN Answers \/ Tells \/ Grows \/ Extends \/ Misbehaves ELSE HostileNext
Spec == Init /\ [][Next]_vars
\* the peer answers, and it tells about its top block again and again
FairSpec == Spec /\ WF_<<s, env>>(Answers) /\ WF_<<s, env>>(env.k = "none" /\ Tells)

View == <<s, env, act.n>>
Bound == Mode = "sync" => Len(s.needed) + Len(s.req) <= 4

----------------------------------------------------------------------------
(* P01: nothing but the answer to a handshake or a timed sync before or at  *)
(* the handshake, and a request exactly if the top block is unknown.        *)
Requests(out) == SelectSeq(out, LAMBDA o : o.k \in {"chain", "blocks"})
GateHolds == [][(s.st = "before" /\ Open) =>
                  /\ act'.m.k # "handshake" => s'.st \in {"before", "closed"} /\ Requests(act'.out) = <<>>
                  /\ s'.chain = s.chain
                  /\ (act'.m.k = "handshake" /\ s'.st # "closed") =>
                       /\ act'.m.net = "ours"
                       /\ (Requests(act'.out) # <<>>) <=> ~On(s.chain, act'.m.top)]_vars
SecondHandshake == [][(act'.m.k = "handshake" /\ s.st # "before") => s'.st = "closed" /\ act'.out = <<>>]_vars
(* P02 *)
DialHolds == [][(s.st = "dial" /\ s'.st \notin {"dial", "closed"} /\ act'.m.k = "answer") =>
                  act'.m.cmd = "handshake" /\ act'.m.resp /\ act'.m.body = "good" /\ act'.m.net = "ours" /\ act'.m.ver >= 0]_vars
(* P03 *)
AsAnnounced == [][\A i \in 1..Len(act'.out) : act'.out[i].k = "blocks" =>
                    LET q == act'.out[i].ids
                    IN /\ Len(q) \in 1..Limit
                       /\ Range(q) \subseteq Range(s.needed) \cup (IF act'.m.k = "announce" THEN Range(act'.m.ids) ELSE {})
                       /\ act'.m.k = "deliver" => \A j \in 1..Len(q) : ~On(s'.chain, q[j])]_vars
Exactly == [][(act'.m.k = "deliver" /\ s'.chain # s.chain) =>
                /\ Len(act'.m.bl) = Len(s.req)
                /\ {act'.m.bl[i].b : i \in 1..Len(act'.m.bl)} = Range(s.req)]_vars
(* P04 *)
NothingFromClosed == [][(s'.st = "closed") => Requests(act'.out) = <<>>]_vars
ChainValid == \A i \in 1..Len(s.chain) : Valid(s.chain[i]) /\ Index(s.chain[i]) = i
                                          /\ Prev(s.chain[i]) = (IF i = 1 THEN 0 ELSE s.chain[i - 1])
ChainGrows == [][Len(s'.chain) >= Len(s.chain) /\ SubSeq(s'.chain, 1, Len(s.chain)) = s.chain]_vars
(* P05 *)
OneOutstanding == [][Len(Requests(act'.out)) <= 1 /\ ((Mode = "honest" /\ env.k # "none" /\ act'.m.k \in {"timedsync", "meanwhile"}) => Requests(act'.out) = <<>>)]_vars
NeverClosed == (Mode = "honest" /\ ~Hostile) => Open
Synced == s.st # "closed" /\ Len(s.chain) = env.rc /\ env.k = "none"
EventuallySynced == <>[]Synced
EqualAsksNothing == [][(Mode = "honest" /\ Len(s.chain) = env.rc /\ env.k = "none" /\ act'.m.k \in {"handshake", "timedsync", "answer"}) => Requests(act'.out) = <<>>]_vars

----------------------------------------------------------------------------
\* long runs of consecutive blocks as <<-1, first, last>>
Show(q) == IF Len(q) > 6 /\ q = Seq1(q[1], q[1] + Len(q) - 1) THEN <<-1, q[1], Last(q)>> ELSE q
RECURSIVE Runs(_, _, _)
Runs(bl, i, acc) ==
  IF i > Len(bl) THEN acc
  ELSE LET l == Len(acc)
       IN Runs(bl, i + 1, IF l > 0 /\ acc[l].bod = "right" /\ bl[i].bod = "right" /\ bl[i].b = acc[l].b + acc[l].n
                          THEN [acc EXCEPT ![l].n = @ + 1]
                          ELSE Append(acc, [b |-> bl[i].b, n |-> 1, bod |-> bl[i].bod]))
ShowBl(bl) == Runs(bl, 1, <<>>)
ShowM(m) == CASE m.k = "announce" -> [m EXCEPT !.ids = Show(@)]
              [] m.k = "deliver" -> [m EXCEPT !.bl = ShowBl(@)]
              [] OTHER -> m
ShowS(x, e, n) == [chain |-> Show(x.chain), st |-> x.st, needed |-> Show(x.needed), req |-> Show(x.req), remote |-> x.remote, last |-> x.last,
                   n |-> n, env |-> IF Mode = "honest" THEN [e EXCEPT !.ids = Show(@)] ELSE <<>>]
Emit == PrintT(ToJson([s |-> ShowS(s, env, act.n), t |-> ShowS(s', env', act'.n), m |-> ShowM(act'.m), free |-> act'.free,
                       out |-> [i \in 1..Len(act'.out) |-> [act'.out[i] EXCEPT !.ids = Show(@)]]]))
EmitInit == (act.m.k = "init") => PrintT(ToJson([init |-> ShowS(s, env, act.n)]))
=============================================================================
