----------------------------- MODULE TraceStreamer -----------------------------
(***************************************************************************)
(* Can the recorded history of a real server, producer and clients be a    *)
(* behaviour of Streamer.tla?  The steps inside the server are not         *)
(* recorded: TLC looks for any way to fill them in.  A history is accepted *)
(* if its last event can be reached ("@OK@scenario@" is printed).          *)
(***************************************************************************)
EXTENDS Streamer, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Diag == IOEnv.DIAG = "1"

VARIABLES sc, l, s
vars == <<sc, l, s>>

Ev == Trace[sc].ev
Max == Trace[sc].max

Init == sc \in 1..Len(Trace) /\ l = 1 /\ s = Fresh

Hidden ==
    /\ UNCHANGED <<sc, l>>
    /\ \/ CanPut(s, Max) /\ s' = Put(s)
       \/ \E c \in s.req : CanTake(s) /\ s' = Take(s, c)
       \/ CanSend(s) /\ s' = Send(s)
       \/ CanExit(s) /\ s' = Exit(s)

Step(e) ==
    CASE e.op = "feed" -> CanFeed(s) /\ e.i = s.next /\ s' = FeedCall(s)
      [] e.op = "fed" -> CanFeedRet(s) /\ s' = FeedRet(s)
      [] e.op = "start" -> CanStart(s) /\ s' = Start(s)
      [] e.op = "stop" -> CanStop(s) /\ s' = StopCall(s)
      [] e.op = "stopped" -> CanStopRet(s) /\ s' = StopRet(s)
      [] e.op = "ask" -> CanAsk(s, e.c) /\ s' = Ask(s, e.c)
      [] e.op = "got" -> CanReply(s, e.c) /\ e.c \notin s.gone /\ s.wire[e.c] = e.i /\ s' = Reply(s, e.c)
      [] e.op = "close" -> s' = Close(s, e.c)
      \* the client will not be answered, and asks anew on another connection
      \* (or asked while there was no server at all, and takes it back)
      [] e.op = "giveup" -> \/ e.c \in s.lost /\ s' = [s EXCEPT !.lost = @ \ {e.c}]
                            \/ ~ s.up /\ e.c \in s.req /\ s' = [s EXCEPT !.req = @ \ {e.c}]
      \* after a long wait nothing more happens
      [] e.op = "quiet" -> Quiet(s, Max) /\ s' = s
      [] OTHER -> FALSE

Next ==
    \/ /\ l <= Len(Ev) /\ Hidden
    \/ /\ l <= Len(Ev)
       /\ l' = l + 1 /\ UNCHANGED sc
       /\ Step(Ev[l])
       /\ IF Diag THEN PrintT("@R@" \o ToString(sc) \o "@" \o ToString(l) \o "@") ELSE TRUE
       /\ IF l = Len(Ev) THEN PrintT("@OK@" \o ToString(sc) \o "@") ELSE TRUE

Spec == Init /\ [][Next]_vars
=============================================================================
