-------------------------------- MODULE Shared ------------------------------
(***************************************************************************)
(* Values shared between threads (C25, C26).  A field keeps the constants  *)
(* of its root algorithm in a cell that is filled on first use; copies of  *)
(* the field, and every element, hold a reference to the same cell.        *)
(* Threads copy and drop references, and take roots, in any order.         *)
(*                                                                         *)
(* Init-once cell: EMPTY -> BUSY (one thread computes) -> FULL.  A thread  *)
(* that finds BUSY waits.  Guard = "cell" is the library's protocol;       *)
(* "none" lets every thread that finds EMPTY compute and store in two      *)
(* steps, tearing the two words of the value; "borrow" panics when BUSY is *)
(* met (a cell for one thread shared by force); "global" is one cell for   *)
(* all fields.  Only "cell" satisfies the properties.                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Fields, MaxHandles, Roots, Guard

\* the constants of field f: two words
Right(f) == <<f, f>>
Cell(f)  == IF Guard = "global" THEN 0 ELSE f
Cells    == IF Guard = "global" THEN {0} ELSE Fields

VARIABLES handles,   \* handles[t][f]: how many references to f thread t holds
          alive,     \* alive[f]: its shared part is allocated
          state,     \* state[c]: EMPTY, BUSY, FULL
          value,     \* value[c]: the two words in the cell
          pc, fld,   \* what each thread is doing, on which field
          left,      \* roots each thread may still take
          out,       \* out[t]: what the last root was computed with, << >> if none
          inits      \* how often each cell was filled
vars == <<handles, alive, state, value, pc, fld, left, out, inits>>

Sum(f) == LET S(T) == Cardinality({<<t, i>> \in Threads \X (1 .. MaxHandles) : i <= handles[t][f]}) IN S(0)

Init == /\ handles = [t \in Threads |-> [f \in Fields |-> 1]]
        /\ alive = [f \in Fields |-> TRUE]
        /\ state = [c \in Cells |-> "EMPTY"] /\ value = [c \in Cells |-> <<0, 0>>]
        /\ pc = [t \in Threads |-> "idle"] /\ fld = [t \in Threads |-> CHOOSE f \in Fields : TRUE]
        /\ left = [t \in Threads |-> Roots] /\ out = [t \in Threads |-> << >>]
        /\ inits = [c \in Cells |-> 0]

Copy(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E f \in Fields : /\ handles[t][f] \in 1 .. MaxHandles - 1
                                /\ handles' = [handles EXCEPT ![t][f] = @ + 1]
           /\ UNCHANGED <<alive, state, value, pc, fld, left, out, inits>>
\* the last reference frees the shared part
Drop(t) == /\ pc[t] = "idle"
           /\ \E f \in Fields : /\ handles[t][f] > 0
                                /\ (handles[t][f] > 1 \/ left[t] = 0)
                                /\ handles' = [handles EXCEPT ![t][f] = @ - 1]
                                /\ alive' = [alive EXCEPT ![f] = Sum(f) > 1]
           /\ UNCHANGED <<state, value, pc, fld, left, out, inits>>
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E f \in Fields : handles[t][f] > 0 /\ fld' = [fld EXCEPT ![t] = f]
            /\ pc' = [pc EXCEPT ![t] = "look"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ out' = [out EXCEPT ![t] = << >>]
            /\ UNCHANGED <<handles, alive, state, value, inits>>
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Look(t) == LET c == Cell(fld[t]) IN
  /\ pc[t] = "look"
  /\ CASE state[c] = "FULL" -> Go(t, "use") /\ UNCHANGED state
       [] state[c] = "EMPTY" -> Go(t, "compute") /\ state' = (IF Guard = "none" THEN state ELSE [state EXCEPT ![c] = "BUSY"])
       [] state[c] = "BUSY" -> Guard = "borrow" /\ Go(t, "panic") /\ UNCHANGED state   \* otherwise: wait
  /\ UNCHANGED <<handles, alive, value, fld, left, out, inits>>
\* the two words are written one after the other
Write1(t) == LET c == Cell(fld[t]) IN
  /\ pc[t] = "compute" /\ Go(t, "second")
  /\ value' = [value EXCEPT ![c][1] = Right(fld[t])[1]]
  /\ state' = IF Guard = "none" THEN [state EXCEPT ![c] = "FULL"] ELSE state
  /\ UNCHANGED <<handles, alive, fld, left, out, inits>>
Write2(t) == LET c == Cell(fld[t]) IN
  /\ pc[t] = "second" /\ Go(t, "use")
  /\ value' = [value EXCEPT ![c][2] = Right(fld[t])[2]]
  /\ state' = [state EXCEPT ![c] = "FULL"]
  /\ inits' = [inits EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<handles, alive, fld, left, out>>
Use(t) == /\ pc[t] = "use" /\ Go(t, "idle")
          /\ out' = [out EXCEPT ![t] = <<fld[t], value[Cell(fld[t])]>>]
          /\ UNCHANGED <<handles, alive, state, value, fld, left, inits>>
Step(t) == Look(t) \/ Write1(t) \/ Write2(t) \/ Use(t)
Done == (\A t \in Threads : pc[t] = "idle" /\ left[t] = 0 /\ \A f \in Fields : handles[t][f] = 0) /\ UNCHANGED vars
Next == (\E t \in Threads : Copy(t) \/ Drop(t) \/ Start(t) \/ Step(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ WF_vars(Drop(t)) /\ SF_vars(Start(t))

\* C25: whatever the interleaving, a root is computed with the constants of its field
RightConstants == \A t \in Threads : out[t] = << >> \/ out[t][2] = Right(out[t][1])
NoPanic    == \A t \in Threads : pc[t] # "panic"
FilledOnce == \A c \in Cells : inits[c] <= 1
OneWriter  == \A c \in Cells : Cardinality({t \in Threads : pc[t] \in {"compute", "second"} /\ Cell(fld[t]) = c}) <= 1
\* C26: the shared part lives exactly as long as some reference
LiveIffHeld == \A f \in Fields : alive[f] = (Sum(f) > 0)
UseIsLive   == \A t \in Threads : pc[t] # "idle" => alive[fld[t]]
\* nobody waits for ever
Finishes == \A t \in Threads : (pc[t] = "look") ~> (pc[t] = "idle")
AllFreed == <>(\A f \in Fields : ~alive[f])
=============================================================================
