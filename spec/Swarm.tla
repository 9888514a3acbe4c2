------------------------------- MODULE Swarm -------------------------------
(* Several peers connected to one node at once. Every connection behaves as *)
(* Peer.tla says; connections know of each other through the chain only.    *)
EXTENDS Peer

CONSTANTS Scene,    \* who is there
          Own,      \* length of the node's chain to start with
          Joins     \* how often a peer leaves and another one takes its place

\* what every peer is: "honest", "sly" (answers wrongly now and then) or "free" (sends anything), and the top of its chain
P(kind, top) == [kind |-> kind, top |-> top]
Peers == CASE Scene = "two" -> <<P("honest", 3), P("honest", 3)>>
           [] Scene = "behind" -> <<P("honest", 3), P("honest", 2)>>
           [] Scene = "sly" -> <<P("honest", 3), P("sly", 3)>>
           [] Scene = "slylong" -> <<P("honest", 2), P("sly", 4)>>
           [] Scene = "free" -> <<P("honest", 2), P("free", 0)>>
           [] Scene = "three" -> <<P("honest", 2), P("honest", 2), P("honest", 3)>>
           [] Scene = "threesly" -> <<P("honest", 2), P("honest", 2), P("sly", 2)>>
           [] Scene = "long" -> <<P("honest", 131), P("honest", 130)>>
Kinds == [i \in 1..Len(Peers) |-> Peers[i].kind]
TopOf == [i \in 1..Len(Peers) |-> Peers[i].top]

VARIABLES chain,    \* the chain of the node
          c,        \* the connections: [s |-> see Peer, e |-> the peer, see Env]; s.chain is not used
          joins
svars == <<chain, c, joins>>

N == Len(Kinds)
Conns == 1..N
Bare(x) == [x EXCEPT !.chain = <<>>]
With(x) == [x EXCEPT !.chain = chain]
Up(k) == c[k].s.st # "closed"

\* Peer.tla wants variables of its own
Idle0 == s = 0 /\ env = 0
SInit == /\ Idle0
         /\ chain = Seq1(1, Own)
         /\ c = [k \in Conns |-> [s |-> Bare(Fresh(0)), e |-> Env(TopOf[k])]]
         /\ joins = Joins
         /\ act = [c |-> 0, op |-> "init", m |-> Sub("init", ""), out |-> <<>>, free |-> FALSE]

Note(k, op, m, out, free) == act' = [c |-> k, op |-> op, m |-> m, out |-> out, free |-> free]

Send(k, m, e) ==
  LET r == Handle(With(c[k].s), m)
  IN /\ ~r.free
     /\ chain' = r.s.chain
     /\ c' = [c EXCEPT ![k] = [s |-> Bare(r.s), e |-> IF r.s.st = "closed" THEN None(e) ELSE Pending(e, r.out)]]
     /\ Note(k, "send", m, r.out, FALSE)
     /\ UNCHANGED <<joins, s, env>>

\* only what an honest peer sends reaches env
SAnswers(k) == Up(k) /\ Kinds[k] # "free" /\ \E m \in HonestAnswers(c[k].e) : Send(k, m, None(c[k].e))
STells(k) == Up(k) /\ Kinds[k] # "free" /\ \E m \in HonestSync(With(c[k].s), c[k].e) : Send(k, m, c[k].e)
SMisbehaves(k) == Up(k) /\ Kinds[k] = "sly" /\ \E m \in HostileMsgs(c[k].s, c[k].e) : Send(k, m, None(c[k].e))
\* what a peer that cares for nothing sends: less than Peer.tla has, the connection alone is explored there
FreeMsgs(x) ==
  IF x.st = "before" THEN {Hs("ours", 7, 3000, 5), Hs("ours", 0, 0, 1), Sub("junk", "body")}
  ELSE {Ts(0, 1), Ts(3000, 6), Ts(Tip(x.chain) + 1, 4), Hs("ours", 7, 0, 1), Sub("junk", "signature")}
       \cup {Ann(<<0, 1, 2>>, 0, t) : t \in {2, 6}}
       \cup {Ann(<<0, 1, 1002>>, 0, 6), Ann(<<0, 2001>>, 0, 6), Ann(<<0, 1, 2002>>, 0, 6), Ann(<<1, 2>>, 1, 6), Ann(<<0, 3000>>, 0, 6)}
       \cup {Del(bl, x.last) : bl \in {b \in {Right(x.req), Right(<<1>>), Right(<<2>>)} : \A i \in 1..Len(b) : b[i].b # 3000}}
       \cup (IF x.req # <<>> /\ Last(x.req) # 3000 THEN {Del([Right(x.req) EXCEPT ![Len(x.req)].bod = "cut"], x.last), Del(Right(x.req), x.last + 2)} ELSE {})
SFree(k) == Up(k) /\ Kinds[k] = "free" /\ \E m \in FreeMsgs(With(c[k].s)) : Send(k, m, c[k].e)
SGrows(k) == /\ Up(k) /\ Kinds[k] # "free" /\ c[k].e.grow > 0 /\ c[k].s.st # "before"
             /\ c' = [c EXCEPT ![k].e.rc = @ + 1, ![k].e.grow = @ - 1]
             /\ Note(k, "grows", Sub("grows", ""), <<>>, FALSE)
             /\ UNCHANGED <<chain, joins, s, env>>
\* another peer with the same name takes the place of one that is gone, or leaves
SLeave(k) == /\ joins > 0
             /\ c[k].s.st # "before"
             /\ c' = [c EXCEPT ![k] = [s |-> Bare(Fresh(0)), e |-> [Env(c[k].e.rc) EXCEPT !.grow = c[k].e.grow]]]
             /\ joins' = joins - 1
             /\ Note(k, "join", Sub("join", ""), <<>>, FALSE)
             /\ UNCHANGED <<chain, s, env>>

SNext == \E k \in Conns : SAnswers(k) \/ STells(k) \/ SMisbehaves(k) \/ SFree(k) \/ SGrows(k) \/ SLeave(k)
SSpec == SInit /\ [][SNext]_<<svars, act, s, env>>
SFair == SSpec /\ \A k \in Conns : Kinds[k] = "honest" =>
           WF_svars(SAnswers(k)) /\ WF_svars(c[k].e.k = "none" /\ STells(k))
SView == svars
SBound == \A k \in Conns : Kinds[k] = "free" => Len(c[k].s.needed) + Len(c[k].s.req) <= 2

----------------------------------------------------------------------------
\* P10
Best == CHOOSE n \in {c[k].e.rc : k \in {j \in Conns : Kinds[j] = "honest"}} :
          \A k \in Conns : Kinds[k] = "honest" => c[k].e.rc <= n
SChainValid == \A i \in 1..Len(chain) : Valid(chain[i]) /\ Index(chain[i]) = i /\ Prev(chain[i]) = (IF i = 1 THEN 0 ELSE chain[i - 1])
SGrowsOnly == [][Len(chain') >= Len(chain) /\ SubSeq(chain', 1, Len(chain)) = chain]_svars
Unforked == \A i \in 1..Len(chain) : chain[i] = i
\* whatever the others do, an honest peer stays connected, unless the node took blocks that are not the peer's
HonestStays == \A k \in Conns : (Kinds[k] = "honest" /\ Unforked) => Up(k)
\* a step of one peer touches nothing of another connection
Apart == [][\A k \in Conns : k # act'.c => c'[k] = c[k]]_svars
\* the chain changes by nothing but a delivery of blocks that were requested from the one who sends them
OnlyRequested == [][chain' # chain => /\ act'.m.k = "deliver"
                                      /\ {act'.m.bl[i].b : i \in 1..Len(act'.m.bl)} = Range(c[act'.c].s.req)]_svars
\* and so the node gets to the best chain of its honest peers
GetsThere == <>[](Len(chain) >= Best)

SShowC(x) == [s |-> [st |-> x.s.st, needed |-> Show(x.s.needed), req |-> Show(x.s.req), remote |-> x.s.remote, last |-> x.s.last], e |-> [x.e EXCEPT !.ids = Show(@)]]
SShow(ch, cc, j) == [chain |-> Show(ch), c |-> [k \in Conns |-> SShowC(cc[k])], j |-> j]
SEmit == PrintT(ToJson([s |-> SShow(chain, c, joins), t |-> SShow(chain', c', joins'), c |-> act'.c, op |-> act'.op, m |-> ShowM(act'.m), out |-> [i \in 1..Len(act'.out) |-> [act'.out[i] EXCEPT !.ids = Show(@)]]]))
SEmitInit == (act.op = "init") => PrintT(ToJson([init |-> SShow(chain, c, joins)]))
=============================================================================
