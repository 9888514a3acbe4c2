------------------------------ MODULE Daemon -------------------------------
(* The program: a process that is started, serves any number of peers as     *)
(* Swarm.tla says, and ends when it is interrupted. The chain is kept in     *)
(* memory: a process that is started again begins with the genesis block.    *)
EXTENDS Swarm

CONSTANT Starts \* how often the program is started

VARIABLES phase,   \* "off", "on" or "ending"
          open,    \* the peers that are connected
          runs
dvars == <<phase, open, runs, svars>>

DInit == SInit /\ phase = "off" /\ open = {} /\ runs = Starts

Start == /\ phase = "off" /\ runs > 0
         /\ phase' = "on" /\ runs' = runs - 1
         /\ Note(0, "start", Sub("start", ""), <<>>, FALSE)
         /\ UNCHANGED <<open, svars, s, env>>
Connect(k) == /\ phase = "on" /\ k \notin open
              /\ open' = open \cup {k}
              /\ Note(k, "connect", Sub("connect", ""), <<>>, FALSE)
              /\ UNCHANGED <<phase, runs, svars, s, env>>
Serve(k) == /\ phase = "on" /\ k \in open
            /\ (SAnswers(k) \/ STells(k) \/ SMisbehaves(k) \/ SFree(k) \/ SGrows(k) \/ SLeave(k))
            /\ UNCHANGED <<phase, open, runs>>
\* another process wants the same port: it ends with an error, and this one does not notice
Second == /\ phase = "on"
          /\ Note(0, "second", Sub("second", ""), <<>>, FALSE)
          /\ UNCHANGED <<dvars, s, env>>
\* interrupted, once or twice, peers in the middle of a packet or not
Interrupt == /\ phase = "on"
             /\ phase' = "ending"
             /\ \E how \in {"once", "twice", "half"} : Note(0, "interrupt", Sub("interrupt", how), <<>>, FALSE)
             /\ UNCHANGED <<open, runs, svars, s, env>>
\* then every connection is closed and the process ends without an error
End == /\ phase = "ending"
       /\ phase' = "off" /\ open' = {} /\ chain' = <<>>
       /\ c' = [k \in Conns |-> [s |-> Bare(Fresh(0)), e |-> [Env(c[k].e.rc) EXCEPT !.grow = c[k].e.grow]]]
       /\ Note(0, "end", Sub("end", ""), <<>>, FALSE)
       /\ UNCHANGED <<runs, joins, s, env>>

DNext == Start \/ Interrupt \/ Second \/ End \/ \E k \in Conns : Connect(k) \/ Serve(k)
DSpec == DInit /\ [][DNext]_<<dvars, act, s, env>>
DFair == DSpec /\ WF_dvars(Start) /\ WF_dvars(End)
         /\ \A k \in Conns : Kinds[k] = "honest" =>
              WF_dvars(Connect(k)) /\ WF_dvars(phase = "on" /\ k \in open /\ SAnswers(k) /\ UNCHANGED <<phase, open, runs>>)
              /\ WF_dvars(phase = "on" /\ k \in open /\ c[k].e.k = "none" /\ STells(k) /\ UNCHANGED <<phase, open, runs>>)
DView == dvars

----------------------------------------------------------------------------
\* P11
DTypeOK == phase \in {"off", "on", "ending"} /\ open \subseteq Conns
Silent == \A k \in Conns : k \notin open => c[k].s.st = "before"
Nothing == phase = "off" => chain = <<>> /\ open = {}
\* the chain is lost by nothing but the end of the process
DGrowsOnly == [][phase' # "off" => (Len(chain') >= Len(chain) /\ SubSeq(chain', 1, Len(chain)) = chain)]_dvars
\* an interrupted process ends
Ends == (phase = "ending") ~> (phase = "off")
\* and a process that is left alone gets to the best chain of its honest peers
Serves == <>[](phase = "on") => <>[](Len(chain) >= Best)

DShow(p, o, r, ch, cc, j) == [p |-> p, o |-> [k \in Conns |-> k \in o], r |-> r, s |-> SShow(ch, cc, j)]
DEmit == PrintT(ToJson([s |-> DShow(phase, open, runs, chain, c, joins), t |-> DShow(phase', open', runs', chain', c', joins'),
                        c |-> act'.c, op |-> act'.op, m |-> ShowM(act'.m), out |-> [i \in 1..Len(act'.out) |-> [act'.out[i] EXCEPT !.ids = Show(@)]]]))
DEmitInit == (act.op = "init") => PrintT(ToJson([init |-> DShow(phase, open, runs, chain, c, joins)]))
=============================================================================
