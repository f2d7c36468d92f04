-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions of the code against Redox.            *)
(*                                                                         *)
(* PROG: JSON array of units [id, n, code]; OBS: JSON array, per unit the  *)
(* sequence of what was observed at each instruction: a sequence of the    *)
(* distinct results over all owned/borrowed forms of the call.             *)
(* Units are independent; TLC explores them as independent behaviours, one *)
(* state per executed call.  A call whose observations the machine does    *)
(* not allow is printed and has no successor, so the behaviour ends early  *)
(* and the count of states misses the expected one.                        *)
(*                                                                         *)
(* With MODE=occupancy the machine is abstracted to which registers hold a *)
(* value (as observed), and only the calls "live" are judged: C26 is about *)
(* what is still allocated when nothing is held, whatever was computed.    *)
(***************************************************************************)
EXTENDS Redox, TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Prog == JsonDeserialize(IOEnv.PROG)
Obs  == JsonDeserialize(IOEnv.OBS)

\* memo: the roots observed so far in this unit; a square root is a function
VARIABLES u, pc, regs, memo
vars == <<u, pc, regs, memo>>
View == <<u, pc>>

Init == /\ u \in 1 .. Len(Prog)
        /\ pc = 1
        /\ regs = [i \in 1 .. Prog[u].n |-> VNone]
        /\ memo = << >>

Admits(v, os) == Len(os) >= 1 /\ \A i \in 1 .. Len(os) : Matches(v, os[i])
\* all forms of one call must also agree with each other when the machine leaves a choice
OneChoice(v, os) == v.k \in {"root", "any"} => Len(os) = 1

\* the root does not depend on what was computed before, nor on the copy of the field
Key(x) == IF x.k = "fp" THEN <<x.k, x.p, x.v, x.v>> ELSE <<x.k, x.p, x.v[1], x.v[2]>>
SameRoot(x, o) == Key(x) \in DOMAIN memo => memo[Key(x)] = o

Occupancy == IOEnv.MODE = "occupancy"
\* what a call leaves in its target, by its outcome alone
Seen(ins, o) ==
  CASE ins.o = "live" -> VNone
    [] o[1] \in {"panic", "err", "skip", "unit", "none"} -> VNone
    [] OTHER -> [k |-> "some"]
OccStep ==
  LET ins == Prog[u].code[pc]
      os  == Obs[u][pc]
      v   == VLive(\A i \in DOMAIN regs : regs[i].k = "none")
  IN IF ins.o = "live" => Matches(v, os[1])
     THEN /\ regs' = IF Target(ins) = 0 \/ (ins.o \in InPlace /\ os[1][1] = "skip") THEN regs ELSE [regs EXCEPT ![Target(ins)] = Seen(ins, os[1])]
          /\ pc' = pc + 1
          /\ UNCHANGED <<u, memo>>
     ELSE /\ PrintT(<<"REJECT", u, pc, ToString(v)>>)
          /\ FALSE

FullStep ==
  LET ins == Prog[u].code[pc]
      os  == Obs[u][pc]
      v   == Exec(ins, regs)
  IN IF Admits(v, os) /\ OneChoice(v, os) /\ (v.k = "root" => SameRoot(v.x, os[1]))
     THEN /\ regs' = After(ins, Resolve(v, os[1]), regs)
          /\ memo' = IF v.k = "root" THEN (Key(v.x) :> os[1]) @@ memo ELSE memo
          /\ pc' = pc + 1
          /\ u' = u
     ELSE /\ PrintT(<<"REJECT", u, pc, ToString(v)>>)
          /\ FALSE

Step == pc <= Len(Prog[u].code) /\ IF Occupancy THEN OccStep ELSE FullStep

Spec == Init /\ [][Step]_vars

RECURSIVE SumLen(_)
SumLen(i) == IF i = 0 THEN 0 ELSE Len(Prog[i].code) + 1 + SumLen(i - 1)
Accepted == TLCGet("stats").distinct = SumLen(Len(Prog))
=============================================================================
