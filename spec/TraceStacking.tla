----------------------------- MODULE TraceStacking -----------------------------
(***************************************************************************)
(* Judges results of stacking recorded from the real code: total verdicts. *)
(* cur: what the lazy stack being indexed stands for.                      *)
(***************************************************************************)
EXTENDS Stacking, Json, IOUtils, TLC, FiniteSetsExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, cur
vars == <<sc, l, cur>>

If(b, x) == IF b THEN {x} ELSE {}
Raised(o) == o.k = "exc"
Is(o, c) == \E i \in 1..Len(o.t) : o.t[i] = c
None == [sh |-> <<>>, v |-> <<>>, axis |-> -1, dt |-> ""]

SameArr(o, a, dt) ==
    IF o.k \notin {"arr", "view"} THEN {"kind"}
    ELSE IF o.sh # a.sh THEN {"shape"}
    ELSE If(o.v # a.v, "values") \cup If(o.dt # dt, "dtype")

(* making a stack *)
\* mods: sequence of [n, key, sh, v, dt]
StackJudge(e) ==
    LET with == SelectSeq(e.mods, LAMBDA m : m.key = 1)
        dts == {with[i].dt : i \in 1..Len(with)}
        shs == {with[i].sh : i \in 1..Len(with)}
        zero == {s \in shs : Len(s) > 0 /\ s[1] = 0}
        \* modules which are there but empty are missing as well
        fulls == IF Cardinality(shs) = 2 /\ Cardinality(zero) = 1
                    /\ \A s, t \in shs : Len(s) = Len(t) /\ Tail(s) = Tail(t)
                 THEN shs \ zero ELSE shs
        bad == Cardinality(dts) # 1 \/ Cardinality(fulls) # 1
    IN
    IF e.other = 1 \/ bad THEN [ok |-> FALSE, err |-> "ValueError"]
    ELSE LET sh == CHOOSE s \in fulls : TRUE
             use == SelectSeq(with, LAMBDA m : m.sh = sh)
             nos == {use[i].n : i \in 1..Len(use)}
             dt == CHOOSE d \in dts : TRUE
             ax == IF e.axis < 0 THEN e.axis + Len(sh) + 1 ELSE e.axis
             fill == IF e.fill # <<>> THEN e.fill[1] ELSE IF \E i \in 1..Len(e.floats) : e.floats[i] = dt THEN e.nan ELSE 0
         IN  IF ax \notin 0..Len(sh) THEN [ok |-> FALSE, err |-> ""]     \* no such axis: no claim
             ELSE IF \E n \in nos : n >= e.modules THEN [ok |-> FALSE, err |-> "IndexError"]
             ELSE [ok |-> TRUE, axis |-> ax, dt |-> dt,
                   a |-> Stack([n \in nos |-> LET i == CHOOSE i \in 1..Len(use) : use[i].n = n
                                             IN  [sh |-> sh, v |-> use[i].v]],
                               e.modules, sh, ax, fill)]

StackFails(e) ==
    LET r == StackJudge(e) o == e.obs IN
    IF ~ r.ok THEN (IF r.err = "" THEN {}
                    ELSE IF ~ Raised(o) THEN {"accepted"} ELSE If(~ Is(o, r.err), "other_error"))
    ELSE IF Raised(o) THEN {"raised"}
    ELSE If((o.k = "view") # (e.lazy = 1), "kind") \cup SameArr(o, r.a, r.dt)
         \cup If(o.k = "view" /\ (o.vsh # r.a.sh \/ o.nd # Len(r.a.sh) \/ o.vdt # r.dt), "about_view")

(* indexing the lazy stack: None in place of values of dimension >= 1 not allowed *)
IndexJudge(e, c) ==
    LET nd == Len(c.sh)
        f == Full(e.ix, nd)
        arr == [sh |-> c.sh, v |-> c.v]
        inr == ~ ManyDims(e.ix, nd) /\ InRange(f, c.sh)
    IN  IF f[c.axis + 1].k # "i" /\ f[c.axis + 1] # All
        \* modules can only be taken singly or all together; refusing others is fine
        THEN [ok |-> TRUE, must |-> FALSE, all |-> FALSE,
              inr |-> inr, a |-> IF inr THEN Pick(arr, f) ELSE arr]
        ELSE IF ~ inr THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, must |-> TRUE, all |-> f[c.axis + 1] = All, inr |-> TRUE,
              a |-> Pick(arr, f), axis |-> NewAxis(f, c.axis)]

IndexFails(e, c) ==
    LET r == IndexJudge(e, c) o == e.obs IN
    IF ~ r.ok THEN (IF ~ Raised(o) THEN {"accepted"} ELSE If(~ Is(o, "IndexError"), "other_error"))
    ELSE IF ~ r.must /\ Raised(o) THEN {}
    ELSE IF ~ r.inr THEN {"accepted"}
    ELSE IF Raised(o) THEN {"raised"}
    ELSE SameArr(o, r.a, c.dt)
         \cup If(o.k = "view" /\ (o.vsh # r.a.sh \/ o.nd # Len(r.a.sh) \/ o.vdt # c.dt), "about_view")

(* stack_data: all the devices, by the numbers in their names *)
DataFails(e) ==
    LET use == SelectSeq(e.devs, LAMBDA d : d.x = 0)
        o == e.obs
        n == Len(use)
        shs == {use[i].sh : i \in 1..n}
        \* position of each device, ties in the order given
        rank(i) == Cardinality({j \in 1..n : Before(use[j].nums, use[i].nums)
                                    \/ (use[j].nums = use[i].nums /\ j < i)})
    IN
    IF n = 0 \/ Cardinality({use[i].dt : i \in 1..n}) # 1 \/ Cardinality(shs) # 1
    THEN (IF ~ Raised(o) THEN {"accepted"} ELSE If(~ Is(o, "ValueError"), "other_error"))
    ELSE IF Raised(o) THEN {"raised"}
    ELSE LET sh == CHOOSE s \in shs : TRUE
             ax == IF e.axis < 0 THEN e.axis + Len(sh) + 1 ELSE e.axis
             at == [m \in 0..n - 1 |-> LET i == CHOOSE i \in 1..n : rank(i) = m
                                       IN  [sh |-> sh, v |-> use[i].v]]
         IN  SameArr(o, Stack(at, n, sh, ax, 0), use[1].dt)

Fails(e) ==
    (CASE e.op = "stack" -> StackFails(e)
       [] e.op = "index" -> IndexFails(e, cur)
       [] e.op = "devices" -> DataFails(e))
    \cup If(e.same = 0, "input_changed")

After(e) ==
    CASE e.op = "stack" /\ e.lazy = 1 ->
            LET r == StackJudge(e) IN IF r.ok THEN [sh |-> r.a.sh, v |-> r.a.v, axis |-> r.axis, dt |-> r.dt] ELSE cur
      [] e.op = "index" ->
            LET r == IndexJudge(e, cur)
            IN  IF r.ok /\ r.must /\ r.all /\ e.go = 1
                THEN [sh |-> r.a.sh, v |-> r.a.v, axis |-> r.axis, dt |-> cur.dt] ELSE cur
      [] OTHER -> cur

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1 /\ cur = None
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l] IN Report(e, Fails(e)) /\ cur' = After(e)
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
