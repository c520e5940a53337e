----------------------------- MODULE TraceMessage -----------------------------
(***************************************************************************)
(* Judges messages recorded from the real streaming server against the     *)
(* data and metadata which were fed.  Total verdicts, one line per event.  *)
(***************************************************************************)
EXTENDS Message, Json, IOUtils, TLC, FiniteSetsExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>

If(b, x) == IF b THEN {x} ELSE {}
\* maps are recorded as sequences of [k, v]; not twice the same key
Keys(q) == {q[i].k : i \in 1..Len(q)}
Map(q) == [x \in Keys(q) |-> q[CHOOSE i \in 1..Len(q) : q[i].k = x].v]
Twice(q) == Cardinality(Keys(q)) # Len(q)

Frame(f) == IF f.content = "msgpack" THEN [f EXCEPT !.pay = Map(@), !.meta = Map(@)] ELSE f

\* 1.0: the metadata is among the values
One(m) == LET d == Map(m)
          IN  [ok |-> ~ Twice(m), data |-> [x \in DOMAIN d |-> Map(d[x].vals)],
               meta |-> [x \in DOMAIN d |-> Map(d[x].meta)]]

Fails(e) ==
    LET fed == [x \in Keys(e.data) |-> Map(Map(e.data)[x])]
        fm == [x \in Keys(e.meta) |-> Map(Map(e.meta)[x])]
        o == e.obs
    IN
    IF o.k # "msg" THEN {"raised"} ELSE
    LET d == IF e.ver = "1.0" THEN One(o.one) ELSE Decode([i \in 1..Len(o.frames) |-> Frame(o.frames[i])])
        \* where no metadata was given, none or an empty one arrives
        m(x) == IF x \in DOMAIN fm THEN fm[x] ELSE EmptyMap
    IN
    If(e.same = 0, "input_changed") \cup
    (IF ~ d.ok THEN {"frames"} ELSE
     If(DOMAIN d.data # DOMAIN fed, "sources") \cup
     UNION {LET a == Cut(fed[s], {"metadata"})
                b == Cut(d.data[s], {"metadata"})
                both == DOMAIN a \cap DOMAIN b
                dm == Cut(d.meta[s], IF e.stamp = 1 THEN StampKeys ELSE {})
                wm == Cut(m(s), IF e.stamp = 1 THEN StampKeys ELSE {})
                st == d.meta[s]
            IN  If(DOMAIN a # DOMAIN b, "keys")
                \cup If(\E x \in both : a[x].k # b[x].k, "kind")
                \cup If(\E x \in both : a[x].k = "one" /\ b[x].k = "one" /\ a[x] # b[x], "value")
                \cup If(\E x \in both : a[x].k = "arr" /\ b[x].k = "arr" /\ a[x].dt # b[x].dt, "dtype")
                \cup If(\E x \in both : a[x].k = "arr" /\ b[x].k = "arr" /\ a[x].sh # b[x].sh, "shape")
                \cup If(\E x \in both : a[x].k = "arr" /\ b[x].k = "arr" /\ a[x].by # b[x].by, "contents")
                \cup If(dm # wm, "metadata")
                \cup (IF e.stamp = 0 THEN {}
                      ELSE IF "timestamp" \in DOMAIN m(s)
                      THEN If([x \in DOMAIN st \cap StampKeys |-> st[x]]
                              # [x \in DOMAIN m(s) \cap StampKeys |-> m(s)[x]], "timestamp_replaced")
                      ELSE IF ~ (StampKeys \subseteq DOMAIN st) THEN {"no_timestamp"}
                      ELSE \* the recorder gives times in ms since the start of the scenario
                           LET t == Map(o.stamps)[s] IN
                           If(t.ms < e.lo - 1 \/ t.ms > e.hi + 1, "wrong_timestamp")
                           \cup If(t.parts < t.ms - 1 \/ t.parts > t.ms + 1 \/ t.digits # 18, "timestamp_parts"))
            : s \in DOMAIN fed \cap DOMAIN d.data})

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o "msg." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[sc].ev)
        /\ Report(Trace[sc].ev[l], Fails(Trace[sc].ev[l]))
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
