------------------------------- MODULE Starve -------------------------------
(* A node that the system gives no more than Limit connections. The others    *)
(* wait, in the order they came, and may say what they like in the meantime;  *)
(* those that are served are served as ever. When one of them leaves or is    *)
(* disconnected, or when the limit is lifted, those that wait get their turn. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,      \* connections
          Limit   \* how many the node can have

Conns == 1..N
VARIABLES node,   \* "on", "ending", "off"
          lifted, \* whether the limit is gone
          conn,   \* "none", "fresh" or "normal" (the handshake was made), for each connection
          queue,  \* those that wait
          act
vars == <<node, lifted, conn, queue, act>>

Init == node = "on" /\ lifted = FALSE /\ conn = [c \in Conns |-> "none"] /\ queue = <<>> /\ act = [op |-> "start", c |-> 0]

Waiting == {queue[i] : i \in 1..Len(queue)}
Served == {c \in Conns : conn[c] # "none"} \ Waiting
Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
\* the node takes as many as it can
Take(q, n) == IF lifted' THEN <<>> ELSE SubSeq(q, n + 1, Len(q))

Does(op, c) == node = "on" /\ act' = [op |-> op, c |-> c] /\ UNCHANGED node
Connect(c) == /\ conn[c] = "none" /\ \A d \in Conns : d < c => conn[d] # "none"
              /\ Does("connect", c) /\ UNCHANGED lifted
              /\ conn' = [conn EXCEPT ![c] = "fresh"]
              /\ queue' = IF lifted \/ Cardinality(Served) < Limit THEN queue ELSE Append(queue, c)
Hello(c) == conn[c] = "fresh" /\ Does("hello", c) /\ conn' = [conn EXCEPT ![c] = "normal"] /\ UNCHANGED <<lifted, queue>>
Ends(op, c) == /\ conn[c] # "none" /\ Does(op, c) /\ UNCHANGED lifted
               /\ conn' = [conn EXCEPT ![c] = "none"]
               /\ queue' = IF c \in Waiting THEN Without(queue, c) ELSE Take(queue, 1)
Leave(c) == Ends("leave", c) \/ Ends("reset", c)
Bad(c) == c \in Served /\ Ends("bad", c)
Lift == ~lifted /\ Does("lift", 0) /\ lifted' = TRUE /\ queue' = <<>> /\ UNCHANGED conn
Stop == node = "on" /\ node' = "ending" /\ act' = [op |-> "stop", c |-> 0] /\ UNCHANGED <<lifted, conn, queue>>
End == /\ node = "ending" /\ node' = "off" /\ conn' = [c \in Conns |-> "none"] /\ queue' = <<>>
       /\ act' = [op |-> "end", c |-> 0] /\ UNCHANGED lifted

Next == Stop \/ End \/ Lift \/ \E c \in Conns : Connect(c) \/ Hello(c) \/ Leave(c) \/ Bad(c)
Spec == Init /\ [][Next]_vars
View == <<node, lifted, conn, queue>>

\* No more than it can, and no fewer as long as somebody waits
Bounded == ~lifted => Cardinality(Served) <= Limit
Busy == queue # <<>> => ~lifted /\ Cardinality(Served) = Limit
\* who is served stays served until he goes
Keeps == [][node' = "on" => \A c \in Served : act'.c = c \/ c \in Served']_vars
\* in the order they came
Fair == [][\A c \in Waiting : (node' = "on" /\ act'.c # c /\ c \in Served') => \A i \in 1..Len(queue) : (\E j \in i..Len(queue) : queue[j] = c) => queue[i] \notin Waiting']_vars
\* as the others go one after the other, whoever waits gets his turn; and a node that is interrupted ends
LiveSpec == Spec /\ WF_vars(End) /\ WF_vars(\E c \in Served : Leave(c))
Stops == (node = "ending") ~> (node = "off")
Turns == \A c \in Conns : (c \in Waiting) ~> (c \notin Waiting)

K(n, l, x, q) == [node |-> n, lifted |-> l, conn |-> x, queue |-> q]
Emit == act'.op # "end" =>
        PrintT(ToJson([s |-> K(node, lifted, conn, queue), t |-> K(node', lifted', conn', queue'), a |-> act',
                       served |-> Served', said |-> {c \in Served' : conn'[c] = "normal"}]))
EmitInit == act.op = "start" => PrintT(ToJson([init |-> K(node, lifted, conn, queue)]))
=============================================================================
