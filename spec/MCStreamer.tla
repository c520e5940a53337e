------------------------------ MODULE MCStreamer ------------------------------
(***************************************************************************)
(* Design check of the streaming server: all interleavings of one          *)
(* producer, the server thread, Clients clients and up to Stops stops and  *)
(* restarts, with safety and liveness properties.  Design selects mutants. *)
(***************************************************************************)
EXTENDS Streamer, TLC

CONSTANTS N, Max, NClients, Stops, Closes, Design

VARIABLES s, got, put, nstops, ncloses
vars == <<s, got, put, nstops, ncloses>>

Clients == 1..NClients

Init == s = Fresh /\ got = <<>> /\ put = 0 /\ nstops = 0 /\ ncloses = 0

Same == UNCHANGED <<got, put, nstops, ncloses>>

DFeed == CanFeed(s) /\ s.next <= N /\ s' = FeedCall(s) /\ Same
DStart == CanStart(s) /\ ~ s.stopping /\ nstops < Stops + 1 /\ s' = Start(s) /\ Same
DStop == CanStop(s) /\ s.up /\ nstops < Stops /\ s' = StopCall(s) /\ nstops' = nstops + 1
         /\ UNCHANGED <<got, put, ncloses>>
DAsk == \E c \in Clients \ s.gone : CanAsk(s, c) /\ s' = Ask(s, c) /\ Same
\* a client whose request was lost reconnects and may ask again
DRetry == \E c \in s.lost \ s.gone : s' = [s EXCEPT !.lost = @ \ {c}] /\ Same
DClose == ncloses < Closes /\ \E c \in Clients \ s.gone : s' = Close(s, c)
          /\ ncloses' = ncloses + 1 /\ UNCHANGED <<got, put, nstops>>

DPut == /\ IF Design = "drop_when_full" THEN s.feed # 0 /\ ~ s.done
           ELSE CanPut(s, IF Design = "one_more" THEN Max + 1 ELSE Max)
        /\ s' = (IF Design = "drop_when_full" /\ Len(s.q) >= Max THEN [s EXCEPT !.done = TRUE] ELSE Put(s))
        /\ put' = put + 1 /\ UNCHANGED <<got, nstops, ncloses>>
DTake == \E c \in s.req : CanTake(s) /\ s' = Take(s, c) /\ Same
DSend == CanSend(s) /\ s' = Send(s) /\ Same
DExit == /\ CanExit(s)
         /\ (Design = "blocking_recv" => s.srv = 0 /\ s.req # {})
         /\ (Design = "blocking_get" => s.srv = 0 \/ Len(s.q) > 0)
         /\ s' = (CASE Design = "linger_zero" -> [Exit(s) EXCEPT !.wire = <<>>]
                    [] Design = "take_and_drop" /\ Len(s.q) > 0 -> [Exit(s) EXCEPT !.q = Tail(@)]
                    [] OTHER -> Exit(s))
         /\ Same
DFeedRet == CanFeedRet(s) /\ s' = FeedRet(s) /\ Same
DReply == \E c \in Clients : CanReply(s, c) /\ s' = Reply(s, c)
          /\ got' = (IF c \in s.gone THEN got ELSE Append(got, <<c, s.wire[c]>>))
          /\ UNCHANGED <<put, nstops, ncloses>>
DStopRet == CanStopRet(s) /\ s' = StopRet(s) /\ Same

Next == DFeed \/ DStart \/ DStop \/ DAsk \/ DRetry \/ DClose \/ DPut \/ DTake \/ DSend
        \/ DExit \/ DFeedRet \/ DReply \/ DStopRet

Spec == Init /\ [][Next]_vars
        /\ WF_vars(DFeed) /\ WF_vars(DStart) /\ WF_vars(DAsk) /\ WF_vars(DRetry)
        /\ WF_vars(DPut) /\ WF_vars(DTake)
        /\ WF_vars(DSend) /\ WF_vars(DExit) /\ WF_vars(DFeedRet) /\ WF_vars(DReply) /\ WF_vars(DStopRet)

Items == {got[i][2] : i \in 1..Len(got)}
OnWire == {s.wire[c] : c \in DOMAIN s.wire}
Queued == {s.q[i] : i \in 1..Len(s.q)}

Bounded == Len(s.q) <= Max
\* no item twice, wherever it is
Once == /\ \A i, j \in 1..Len(got) : got[i][2] = got[j][2] => i = j
        /\ OnWire \cap Items = {} /\ Queued \cap (Items \cup OnWire) = {}
        /\ \A c, d \in DOMAIN s.wire : s.wire[c] = s.wire[d] => c = d
\* nothing lost while every client stays
NoneLost == Closes = 0 => Items \cup OnWire \cup Queued
                          = 1..(s.next - 1 - (IF s.feed # 0 /\ ~ s.done THEN 1 ELSE 0))
\* each client gets later and later items, and the queue keeps the order
InOrder == /\ \A i, j \in 1..Len(got) : i < j /\ got[i][1] = got[j][1] => got[i][2] < got[j][2]
           /\ \A i, j \in 1..Len(s.q) : i < j => s.q[i] < s.q[j]
           /\ \A x \in Items \cup OnWire, y \in Queued : x < y
Waits == s.feed # 0 /\ ~ s.done /\ ~ CanPut(s, Max) => Len(s.q) = Max

Safe == Bounded /\ Once /\ NoneLost /\ InOrder

\* stopping always ends; everything fed is delivered in the end
StopEnds == s.stopping ~> ~ s.stopping
AllDelivered == Closes = 0 => <>(Items = 1..N)
=============================================================================
