----------------------------- MODULE NodeLife ------------------------------
(* The life of a node and of its connections: what each peer is in the      *)
(* middle of, who is still served, and that a stop ends everything,         *)
(* whatever the peers do or fail to do.                                     *)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Conns,       \* connections
          Ops          \* which of the costly steps are taken: "dial", "unread"

VARIABLES node,        \* "up", "stopping", "down"
          listening,   \* whether new connections are accepted
          conn,        \* what each connection is in the middle of
          act
vars == <<node, listening, conn, act>>

(* "none": there is no connection; "fresh": connected, nothing was sent;    *)
(* "head": in the middle of the header of the handshake; "normal": after    *)
(* the handshake; "body": in the middle of the body of a packet;            *)
(* "syncing": asked for its chain and owes the answer; "unread": the node   *)
(* is writing and the peer does not read; "dialled": the node made the      *)
(* connection and waits for the answer to its handshake.                    *)
States == {"none", "fresh", "head", "normal", "body", "syncing", "unread", "dialled"}
\* a connection in one of these states answers a timed sync
Served == {"fresh", "normal", "syncing"}

Init == node = "up" /\ listening = TRUE /\ conn = [c \in Conns |-> "none"] /\ act = [op |-> "start", c |-> 0]

Goes(op, c, from, to) == conn[c] \in from /\ conn' = [conn EXCEPT ![c] = to] /\ act' = [op |-> op, c |-> c]
Up == node = "up" /\ UNCHANGED <<node, listening>>

(* What the peers do; they may also do nothing at all for ever.             *)
Connect(c) == listening /\ UNCHANGED <<node, listening>> /\ Goes("connect", c, {"none"}, "fresh")
Dial(c) == "dial" \in Ops /\ Up /\ Goes("dial", c, {"none"}, "dialled")
Peer(c) == /\ Up
           /\ \/ Goes("hello", c, {"fresh"}, "normal")
              \/ Goes("ahead", c, {"fresh"}, "syncing")
              \/ "unread" \in Ops /\ Goes("noread", c, {"fresh"}, "unread")
              \/ Goes("part", c, {"fresh"}, "head")
              \/ Goes("part", c, {"normal", "syncing"}, "body")
              \/ Goes("rest", c, {"head", "body"}, "normal")
              \/ Goes("read", c, {"unread"}, "normal")
              \/ Goes("answer", c, {"dialled"}, "normal")
              \/ Goes("leave", c, States \ {"none"}, "none")
              \/ Goes("reset", c, States \ {"none"}, "none")
(* A peer that misbehaves is disconnected.                                  *)
Bad(c) == Up /\ Goes("bad", c, {"fresh", "normal", "syncing", "dialled"}, "none")

Stop == node = "up" /\ node' = "stopping" /\ act' = [op |-> "stop", c |-> 0] /\ UNCHANGED <<listening, conn>>
(* What the node does then.                                                 *)
CloseListener == node = "stopping" /\ listening /\ listening' = FALSE /\ act' = [op |-> "unlisten", c |-> 0] /\ UNCHANGED <<node, conn>>
Close(c) == node = "stopping" /\ UNCHANGED <<node, listening>> /\ Goes("close", c, States \ {"none"}, "none")
Return == /\ node = "stopping" /\ ~listening /\ \A c \in Conns : conn[c] = "none"
          /\ node' = "down" /\ act' = [op |-> "return", c |-> 0] /\ UNCHANGED <<listening, conn>>
Restart == node = "down" /\ node' = "up" /\ listening' = TRUE /\ act' = [op |-> "start", c |-> 0] /\ UNCHANGED conn

Next == \/ \E c \in Conns : Connect(c) \/ Dial(c) \/ Peer(c) \/ Bad(c) \/ Close(c)
        \/ Stop \/ CloseListener \/ Return \/ Restart
Spec == Init /\ [][Next]_vars
\* only the node is fair: peers may stop at any point
Fair == WF_vars(CloseListener) /\ WF_vars(Return) /\ \A c \in Conns : WF_vars(Close(c))
FairSpec == Spec /\ Fair
View == <<node, listening, conn>>

TypeOK == node \in {"up", "stopping", "down"} /\ conn \in [Conns -> States]
DownIsDown == node = "down" => ~listening /\ \A c \in Conns : conn[c] = "none"
\* what happens to a connection is no concern of the others
Isolated == [][\A c \in Conns : conn'[c] # conn[c] => act'.c = c]_vars
Stops == [](node = "stopping" => <>(node = "down"))

K(n, x) == [node |-> n, conn |-> x]
Emit == (node # "stopping" \/ node' # "stopping") =>
        IF act'.op \in {"return", "start"} THEN TRUE ELSE
        PrintT(ToJson([s |-> K(node, conn),
                       t |-> IF act'.op = "stop" THEN K("down", [c \in Conns |-> "none"]) ELSE K(node', conn'),
                       a |-> act',
                       served |-> {c \in Conns : node' = "up" /\ conn'[c] \in Served}]))
=============================================================================
