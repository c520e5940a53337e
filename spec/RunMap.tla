------------------------------- MODULE RunMap -------------------------------
(***************************************************************************)
(* The protocol by which processes opening a run share a cached map of its *)
(* files.  A data file is a version number (0: absent); its size and       *)
(* modification time stand for the version, and so does what is read from  *)
(* it.  A map entry is [stat, info]: the version whose size and time were  *)
(* saved, and the version whose contents were.                             *)
(*                                                                         *)
(* Processes open runs, an environment replaces and removes data files and *)
(* damages the map, any file operation on the map may fail, and a process  *)
(* may crash between any two steps.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, Files, MaxVer, MaxEnv, MaxCrash, MaxFail, Mutant, Emit

VARIABLES disk,     \* [Files -> version]
          map,      \* [st: absent / partial / ok, ents: [file -> [stat, info]]]
          damaged,  \* has the environment damaged the map (and nobody repaired it)?
          pc, todo, loaded, result, fdver, seen, tmp,
          nenv, ncrash, nfail, hist
vars == <<disk, map, damaged, pc, todo, loaded, result, fdver, seen, tmp, nenv, ncrash, nfail, hist>>

Empty == [f \in {} |-> 0]
H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
ENV == <<disk, map, damaged>>

Init ==
    /\ disk \in [Files -> {0, 1}] /\ \E f \in Files : disk[f] # 0
    /\ map = [st |-> "absent", ents |-> Empty]
    /\ damaged = FALSE
    /\ pc = [p \in Procs |-> "idle"] /\ todo = [p \in Procs |-> {}]
    /\ loaded = [p \in Procs |-> Empty] /\ result = [p \in Procs |-> Empty]
    /\ fdver = [p \in Procs |-> Empty]
    /\ seen = [p \in Procs |-> [f \in Files |-> {}]]
    /\ tmp = [p \in Procs |-> [st |-> "none", ents |-> Empty]]
    /\ nenv = 0 /\ ncrash = 0 /\ nfail = 0
    /\ hist = IF Emit THEN <<[op |-> "init", disk |-> disk]>> ELSE <<>>

Active(p) == pc[p] \notin {"idle", "done", "crashed", "error"}

Begin(p) ==
    /\ pc[p] = "idle"
    /\ \E f \in Files : disk[f] # 0
    /\ pc' = [pc EXCEPT ![p] = "load"]
    /\ todo' = [todo EXCEPT ![p] = {f \in Files : disk[f] # 0}]
    /\ seen' = [seen EXCEPT ![p] = [f \in Files |-> {disk[f]}]]
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, loaded, result, fdver, tmp, nenv, ncrash, nfail>>

\* a map which is not there or cannot be understood counts for nothing
Load(p) ==
    /\ pc[p] = "load"
    /\ LET ok == {f \in DOMAIN map.ents : Mutant = "no_stat_check" \/ disk[f] = map.ents[f].stat}
       IN  loaded' = [loaded EXCEPT ![p] = IF map.st # "ok" THEN Empty
                                           ELSE [f \in ok |-> map.ents[f]]]
    /\ pc' = [pc EXCEPT ![p] = IF map.st = "partial" /\ Mutant = "fatal_damage" THEN "error" ELSE "read"]
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, todo, result, fdver, seen, tmp, nenv, ncrash, nfail>>

Read(p) ==
    /\ pc[p] = "read" /\ todo[p] # {}
    /\ LET f == CHOOSE x \in todo[p] : TRUE
           hit == f \in DOMAIN loaded[p]
           v == IF hit THEN loaded[p][f].info ELSE disk[f]
       IN  /\ todo' = [todo EXCEPT ![p] = @ \ {f}]
           /\ result' = IF v = 0 THEN result
                        ELSE [result EXCEPT ![p] = (f :> v) @@ @]
           /\ fdver' = IF hit \/ v = 0 THEN fdver ELSE [fdver EXCEPT ![p] = (f :> v) @@ @]
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, pc, loaded, seen, tmp, nenv, ncrash, nfail>>

\* Data files which are open are known by their descriptor, so what is saved
\* is the size and time of what was read, even if the name means another now.
StartSave(p) ==
    /\ pc[p] = "read" /\ todo[p] = {}
    /\ IF DOMAIN fdver[p] = {}
       THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<tmp, map>>
       ELSE LET new == [f \in DOMAIN fdver[p] |->
                          [stat |-> IF Mutant = "stat_by_name" /\ disk[f] # 0 THEN disk[f] ELSE fdver[p][f],
                           info |-> fdver[p][f]]]
                mine == [st |-> "partial", ents |-> new @@ loaded[p]]
            IN  /\ tmp' = [q \in Procs |->
                              IF q = p THEN mine
                              ELSE IF Mutant = "shared_tmp" /\ tmp[q].st # "none" THEN [tmp[q] EXCEPT !.st = "partial"]
                              ELSE tmp[q]]
                /\ pc' = [pc EXCEPT ![p] = "write"]
                /\ map' = IF Mutant = "in_place" THEN [st |-> "partial", ents |-> Empty] ELSE map
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, damaged, todo, loaded, result, fdver, seen, nenv, ncrash, nfail>>

Write(p) ==
    /\ pc[p] = "write"
    /\ tmp' = [tmp EXCEPT ![p].st = "full"]
    /\ pc' = [pc EXCEPT ![p] = "rename"]
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, todo, loaded, result, fdver, seen, nenv, ncrash, nfail>>

Rename(p) ==
    /\ pc[p] = "rename"
    /\ map' = IF tmp[p].st = "full" THEN [st |-> "ok", ents |-> tmp[p].ents]
              ELSE [st |-> "partial", ents |-> Empty]
    /\ damaged' = FALSE
    /\ tmp' = [tmp EXCEPT ![p] = [st |-> "none", ents |-> Empty]]
    /\ pc' = [pc EXCEPT ![p] = "done"]
    /\ H([op |-> "step", p |-> p])
    /\ UNCHANGED <<disk, todo, loaded, result, fdver, seen, nenv, ncrash, nfail>>

\* an operation on the map fails: the run is opened all the same
Fail(p) ==
    /\ nfail < MaxFail /\ pc[p] \in {"load", "write", "rename"}
    /\ nfail' = nfail + 1
    /\ pc' = [pc EXCEPT ![p] = IF Mutant = "fatal_failure" THEN "error"
                               ELSE IF pc[p] = "load" THEN "read" ELSE "done"]
    /\ tmp' = [tmp EXCEPT ![p] = [st |-> "none", ents |-> Empty]]
    /\ H([op |-> "fail", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, todo, loaded, result, fdver, seen, nenv, ncrash>>

Crash(p) ==
    /\ ncrash < MaxCrash /\ Active(p)
    /\ ncrash' = ncrash + 1
    /\ pc' = [pc EXCEPT ![p] = "crashed"]
    /\ H([op |-> "crash", p |-> p])
    /\ UNCHANGED <<disk, map, damaged, todo, loaded, result, fdver, seen, tmp, nenv, nfail>>

Change(f) ==   \* replace, add or remove a data file
    /\ nenv < MaxEnv
    /\ nenv' = nenv + 1
    /\ \E v \in {0} \cup ((disk[f] + 1)..MaxVer) :
          /\ v # disk[f]
          /\ v # 0 => \A p \in Procs : v \notin seen[p][f]
          /\ disk' = [disk EXCEPT ![f] = v]
          /\ seen' = [p \in Procs |-> IF Active(p) THEN [seen[p] EXCEPT ![f] = @ \cup {v}] ELSE seen[p]]
          /\ H([op |-> "change", f |-> f, v |-> v])
    /\ UNCHANGED <<map, damaged, pc, todo, loaded, result, fdver, tmp, ncrash, nfail>>

Damage ==
    /\ nenv < MaxEnv
    /\ nenv' = nenv + 1
    /\ map' = [st |-> "partial", ents |-> Empty]
    /\ damaged' = TRUE
    /\ H([op |-> "damage"])
    /\ UNCHANGED <<disk, pc, todo, loaded, result, fdver, seen, tmp, ncrash, nfail>>

Proc(p) == Begin(p) \/ Load(p) \/ Read(p) \/ StartSave(p) \/ Write(p) \/ Rename(p)

Next ==
    /\ \/ \E p \in Procs : Proc(p) \/ Fail(p) \/ Crash(p)
       \/ \E f \in Files : Change(f)
       \/ Damage
    /\ IF Emit /\ \A p \in Procs : pc'[p] \in {"done", "crashed", "error"}
       THEN PrintT("@H@" \o ToJson(hist') \o "@") ELSE TRUE

Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Proc(p))

(****************************** what must hold *****************************)
\* an entry which would be believed tells the truth
MapSound == \A f \in DOMAIN map.ents : map.ents[f].stat = map.ents[f].info

NeverPartial == map.st = "partial" => damaged

OnlyRealVersions ==
    \A p \in Procs : pc[p] = "done" =>
        \A f \in Files :
            /\ f \in DOMAIN result[p] => result[p][f] \in seen[p][f]
            /\ seen[p][f] # {} /\ 0 \notin seen[p][f] => f \in DOMAIN result[p]

NeverFails == \A p \in Procs : pc[p] # "error"

\* opening terminates unless the process crashes
Terminates == \A p \in Procs : (pc[p] = "load") ~> (pc[p] \in {"done", "crashed"})
=============================================================================
