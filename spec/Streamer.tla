------------------------------- MODULE Streamer -------------------------------
(***************************************************************************)
(* The streaming server (karabo_data/export.py): a producer feeds items    *)
(* into a bounded queue, a server thread answers each request of a client  *)
(* with the next item, and the user starts and stops the server.           *)
(*                                                                         *)
(* One record st holds the whole state, so that the same actions serve the *)
(* design (MCStreamer) and the judging of recorded runs (TraceStreamer):   *)
(*   feed  item being fed (0: none)        next  number of the next item   *)
(*   done  the item was put, feed is about to return                       *)
(*   q     items waiting       up  server thread runs   stopping           *)
(*   srv   client whose request the server holds (0: none)                 *)
(*   req   clients whose requests are under way to the server              *)
(*   wire  replies under way: client -> item                               *)
(*   lost  clients whose request will not be answered any more             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [feed |-> 0, next |-> 1, done |-> FALSE, q |-> <<>>, up |-> FALSE,
          stopping |-> FALSE, srv |-> 0, req |-> {}, wire |-> <<>>, lost |-> {},
          gone |-> {}]

(* stimuli *)
CanFeed(s) == s.feed = 0
FeedCall(s) == [s EXCEPT !.feed = s.next, !.next = @ + 1, !.done = FALSE]
CanStart(s) == ~ s.up
Start(s) == [s EXCEPT !.up = TRUE, !.stopping = FALSE]
CanStop(s) == ~ s.stopping
StopCall(s) == [s EXCEPT !.stopping = TRUE]
CanAsk(s, c) == c \notin s.req /\ s.srv # c /\ c \notin DOMAIN s.wire /\ c \notin s.lost
Ask(s, c) == [s EXCEPT !.req = @ \cup {c}]
\* a client goes away; what is on the way to it is lost
Close(s, c) == [s EXCEPT !.gone = @ \cup {c}]

(* steps of the implementation *)
CanPut(s, max) == s.feed # 0 /\ ~ s.done /\ Len(s.q) < max
Put(s) == [s EXCEPT !.q = Append(@, s.feed), !.done = TRUE]
CanTake(s) == s.up /\ s.srv = 0 /\ s.req # {}
Take(s, c) == [s EXCEPT !.srv = c, !.req = @ \ {c}]
CanSend(s) == s.up /\ s.srv # 0 /\ Len(s.q) > 0
Send(s) == [s EXCEPT !.q = Tail(@), !.srv = 0,
                     !.wire = [x \in DOMAIN @ \cup {s.srv} |-> IF x = s.srv THEN Head(s.q) ELSE @[x]]]
\* a request held or on the way when the server ends is never answered
CanExit(s) == s.up /\ s.stopping
Exit(s) == [s EXCEPT !.up = FALSE, !.srv = 0, !.req = {},
                     !.lost = @ \cup s.req \cup ({s.srv} \ {0})]

(* what can be observed *)
CanFeedRet(s) == s.done
FeedRet(s) == [s EXCEPT !.feed = 0, !.done = FALSE]
CanReply(s, c) == c \in DOMAIN s.wire
Reply(s, c) == [s EXCEPT !.wire = [x \in DOMAIN @ \ {c} |-> @[x]]]
CanStopRet(s) == s.stopping /\ ~ s.up
StopRet(s) == [s EXCEPT !.stopping = FALSE]

(* nothing to be seen will happen without a stimulus (a request may still  *)
(* be under way if there is nothing to answer it with)                     *)
Quiet(s, max) == /\ ~ CanPut(s, max) /\ ~ (CanTake(s) /\ Len(s.q) > 0) /\ ~ CanSend(s)
                 /\ ~ s.stopping /\ ~ s.done
                 /\ DOMAIN s.wire \subseteq s.gone
=============================================================================
