---------------------------- MODULE MCStreamerEmit ----------------------------
(***************************************************************************)
(* Histories of stimuli for the real server: after each stimulus the       *)
(* design runs until it is quiet (or not: the stimuli then come in a       *)
(* burst).  Each complete history is printed.                              *)
(***************************************************************************)
EXTENDS Streamer, Json, TLC

CONSTANTS Depth, Max, NClients

VARIABLES s, hist
vars == <<s, hist>>

RECURSIVE Settle(_)
Settle(t) ==
    IF t.done THEN Settle(FeedRet(t))
    ELSE IF CanPut(t, Max) THEN Settle(Put(t))
    ELSE IF DOMAIN t.wire # {} THEN Settle(Reply(t, CHOOSE c \in DOMAIN t.wire : TRUE))
    ELSE IF CanTake(t) THEN Settle(Take(t, CHOOSE c \in t.req : TRUE))
    ELSE IF CanSend(t) THEN Settle(Send(t))
    ELSE IF CanExit(t) THEN Settle(Exit(t))
    ELSE IF CanStopRet(t) THEN Settle([StopRet(t) EXCEPT !.lost = {}])
    ELSE t

Init == s = Fresh /\ hist = <<>>
Do(t, op, c) == s' = Settle(t) /\ hist' = Append(hist, <<op, c>>)
Next == /\ Len(hist) < Depth
        /\ \/ CanFeed(s) /\ Do(FeedCall(s), "feed", 0)
           \/ CanStart(s) /\ Do(Start(s), "start", 0)
           \/ CanStop(s) /\ s.up /\ Do(StopCall(s), "stop", 0)
           \/ \E c \in 1..NClients : CanAsk(s, c) /\ (\A d \in 1..c-1 : ~ CanAsk(s, d)) /\ Do(Ask(s, c), "ask", c)
        /\ IF Len(hist') = Depth THEN PrintT("@H@" \o ToJson(hist') \o "@") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
