----------------------------- MODULE CrashPoint -----------------------------
(* What a save leaves behind when its process ends at any point.  A place (a model, a knowledge label, an        *)
(* encoder) is a directory of Parts files; a save writes all of them, one after another, and removing a           *)
(* directory removes them one after another.  Only a rename is atomic.  The saver writes beside the place and      *)
(* exchanges; whoever looks first puts back what an exchange had moved away.                                       *)
EXTENDS Integers, FiniteSets, TLC, Outcomes
-----------------------------------------------------------------------------
CONSTANTS Parts, MaxVersion, MaxCrashes
Absent == [v |-> 0, has |-> {}]
There(d) == d.v # 0
Whole(d) == d.v # 0 /\ d.has = Parts
Beside(v) == [v |-> v, has |-> {}]
VARIABLES place, saving, previous,
          pc, now,          \* what the running process does, and the version it saves
          last, may,        \* the last save that returned, and the versions that may be found
          crashes
vars == <<place, saving, previous, pc, now, last, may, crashes>>
Init == place = Absent /\ saving = Absent /\ previous = Absent /\ pc = "idle" /\ now = 0 /\ last = 0 /\ may = {0} /\ crashes = 0
Newer == 1 + (IF now > last THEN now ELSE last)
\* putting back what an exchange had moved away
MustRecover == ~There(place) /\ There(saving) /\ There(previous)
Recover == pc \in {"idle", "begin"} /\ MustRecover /\ place' = previous /\ previous' = Absent /\ UNCHANGED <<saving, pc, now, last, may, crashes>>
Begin == pc = "idle" /\ Newer <= MaxVersion /\ pc' = "begin" /\ now' = Newer /\ may' = may \cup {Newer}
         /\ UNCHANGED <<place, saving, previous, last, crashes>>
Drop(d) == IF d.has = {} THEN Absent ELSE [d EXCEPT !.has = @ \ {CHOOSE p \in @ : TRUE}]
ClearPrevious == pc = "begin" /\ ~MustRecover /\ There(previous) /\ previous' = Drop(previous)
                 /\ UNCHANGED <<place, saving, pc, now, last, may, crashes>>
ClearSaving == pc = "begin" /\ ~MustRecover /\ ~There(previous) /\ There(saving) /\ saving' = Drop(saving)
               /\ UNCHANGED <<place, previous, pc, now, last, may, crashes>>
Start == pc = "begin" /\ ~There(previous) /\ ~There(saving) /\ saving' = Beside(now) /\ pc' = "write"
         /\ UNCHANGED <<place, previous, now, last, may, crashes>>
Write == /\ pc = "write"
         /\ IF Whole(saving) THEN pc' = "exchange" /\ UNCHANGED saving
            ELSE \E p \in Parts \ saving.has : saving' = [saving EXCEPT !.has = @ \cup {p}] /\ UNCHANGED pc
         /\ UNCHANGED <<place, previous, now, last, may, crashes>>
MoveAway == pc = "exchange" /\ There(place) /\ previous' = place /\ place' = Absent /\ UNCHANGED <<saving, pc, now, last, may, crashes>>
MoveIn == pc = "exchange" /\ ~There(place) /\ place' = saving /\ saving' = Absent /\ pc' = "clean"
          /\ UNCHANGED <<previous, now, last, may, crashes>>
Clean == /\ pc = "clean"
         /\ IF There(previous) THEN previous' = Drop(previous) /\ UNCHANGED <<pc, last, may>>
            ELSE pc' = "idle" /\ last' = now /\ may' = {now} /\ UNCHANGED previous
         /\ UNCHANGED <<place, saving, now, crashes>>
\* the user removes what is there
Remove == pc = "idle" /\ There(place) /\ ~MustRecover /\ pc' = "remove" /\ UNCHANGED <<place, saving, previous, now, last, may, crashes>>
Removing == /\ pc = "remove"
            /\ place' = Drop(place)
            /\ IF There(place') THEN UNCHANGED <<pc, may>> ELSE pc' = "idle" /\ may' = {0}
            /\ UNCHANGED <<saving, previous, now, last, crashes>>
\* a removal is not interrupted: nothing is promised about it
Crash == pc \notin {"idle", "remove"} /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ pc' = "idle"
         /\ UNCHANGED <<place, saving, previous, now, last, may>>
Next == Recover \/ Begin \/ ClearPrevious \/ ClearSaving \/ Start \/ Write \/ MoveAway \/ MoveIn \/ Clean \/ Remove \/ Removing \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Recover \/ ClearPrevious \/ ClearSaving \/ Start \/ Write \/ MoveAway \/ MoveIn \/ Clean)
-----------------------------------------------------------------------------
\* whoever looks while nothing runs, after putting back
Looked == IF MustRecover THEN previous ELSE place
NeverHalf == pc = "idle" => (There(Looked) => Whole(Looked))
OldOrNew == pc = "idle" => Looked.v \in may
\* one save after another, the last one interrupted: the set the recorded behaviour is judged by
Judged == pc = "idle" /\ last # 0 /\ now = last + 1 /\ 0 \notin may => Looked.v \in Finds(last, now, TRUE, TRUE)
NotLost == pc = "idle" /\ 0 \notin may => There(Looked)
Tidy == pc = "idle" /\ last = now /\ last # 0 /\ crashes = 0 => ~There(saving) /\ ~There(previous)
Ends == pc = "begin" ~> pc = "idle"
=============================================================================
