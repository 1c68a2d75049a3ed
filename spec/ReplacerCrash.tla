---- MODULE ReplacerCrash ----
(***************************************************************************)
(* Writing the files (C19): the new text goes to a temporary file, which   *)
(* then takes the place of the old one.  It can be killed at any moment,   *)
(* writing can fail, and it can be run again afterwards.  One file is      *)
(* refused.                                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, Bad, Parts        \* files 1..N, the refused ones, the parts of a text
VARIABLES disk, temp, at, pc, faults
vars == <<disk, temp, at, pc, faults>>
Files == 1..N
Init == /\ disk = [f \in Files |-> "old"] /\ temp = [f \in Files |-> -1]   \* -1: no such file
        /\ at = 1 /\ pc = "scan" /\ faults = 0
ScanF == /\ pc = "scan"
         /\ IF at > N THEN pc' = "done" /\ UNCHANGED temp
            ELSE IF at \in Bad THEN pc' = "refused" /\ UNCHANGED temp
            ELSE pc' = "write" /\ temp' = [temp EXCEPT ![at] = 0]
         /\ UNCHANGED <<disk, at, faults>>
WriteF == /\ pc = "write" /\ temp[at] < Parts
          /\ temp' = [temp EXCEPT ![at] = @+1] /\ UNCHANGED <<disk, at, pc, faults>>
RenameF == /\ pc = "write" /\ temp[at] = Parts
           /\ disk' = [disk EXCEPT ![at] = "new"] /\ temp' = [temp EXCEPT ![at] = -1]
           /\ at' = at+1 /\ pc' = "scan" /\ UNCHANGED faults
Fault == /\ pc \in {"scan", "write"} /\ faults < 3
         /\ pc' = "stopped" /\ faults' = faults+1 /\ UNCHANGED <<disk, temp, at>>
Again == /\ pc \in {"stopped", "refused", "done"} /\ at' = 1 /\ pc' = "scan" /\ UNCHANGED <<disk, temp, faults>>
Next == ScanF \/ WriteF \/ RenameF \/ Fault \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(ScanF \/ WriteF \/ RenameF \/ Again)

OldOrNew == \A f \in Files : disk[f] \in {"old", "new"}
RefusedStays == \A f \in Bad : disk[f] = "old" /\ temp[f] = -1
DoneMeansDone == pc = "done" => \A f \in Files : disk[f] = "new" /\ temp[f] = -1
(* however often it is interrupted, the files before the refused one get done *)
Recovers == \A f \in Files : (\A b \in Bad : f < b) => <>(disk[f] = "new")
NeverBack == [][\A f \in Files : disk[f] = "new" => disk'[f] = "new"]_vars
====
