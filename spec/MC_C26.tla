------------------------------- MODULE MC_C26 -------------------------------
(***************************************************************************)
(* A receiver walking through the descriptor list one by one ends with the *)
(* class of the specification; descriptors that name no class, wherever    *)
(* they are, change nothing.                                               *)
(***************************************************************************)
EXTENDS StreamClass
CONSTANTS Types, Tags, MaxLen
VARIABLES type, tags, walk     \* walk: class found so far, "" if none
Init == type \in Types /\ tags = <<>> /\ walk = ""
Next == /\ Len(tags) < MaxLen
        /\ \E x \in Tags : /\ tags' = Append(tags, x)
                           /\ walk' = IF walk /= "" THEN walk
                                      ELSE IF type = 6 /\ x \in DOMAIN Named THEN Named[x]
                                      ELSE IF type = 5 /\ x = Application THEN "AIT" ELSE ""
        /\ type' = type
Fixed == IF type \in Video THEN "VIDEO" ELSE IF type \in Audio THEN "AUDIO" ELSE "DATA"
Right == Class(type, tags) = IF walk = "" THEN Fixed ELSE walk
Neutral == LET f == SelectSeq(tags, LAMBDA x : x \in DOMAIN Named \cup {Application}) IN Class(type, tags) = Class(type, f)
=============================================================================
