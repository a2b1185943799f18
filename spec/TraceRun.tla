------------------------------ MODULE TraceRun ------------------------------
(* Generic, total trace validator.                                         *)
(*                                                                         *)
(* A trace is a sequence of events recorded from the real code.  For each  *)
(* event the specification computes, from the state it believes the system *)
(* to be in, what must have been answered and what the state must be now;  *)
(* the event's failing clauses (names) are collected, the state is         *)
(* resynchronised with what was observed, and the rest of the trace is     *)
(* checked as well.  The verdict is therefore total: every event is        *)
(* consumed and every failing clause is named.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS St0,            \* initial specification state
          Step(_, _)      \* Step(state, event) = [st |-> state', bad |-> Seq(STRING)]
VARIABLES l, st, bad

\* a constant, so that TLC reads the file once (it would not if this module were INSTANCEd)
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
MaxSame == 12     \* how many failures of one clause are kept per shard
Kept(b, c) == Len(SelectSeq(b, LAMBDA x : x.clause = c))
RECURSIVE Add(_, _, _)
Add(b, cs, n) == IF cs = <<>> THEN b
                 ELSE Add(IF Kept(b, cs[1]) >= MaxSame THEN b
                          ELSE Append(b, [line |-> n, clause |-> cs[1]]), Tail(cs), n)

TraceInit == l = 1 /\ st = St0 /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET r == Step(st, Trace[l]) IN
         /\ st' = r.st
         /\ bad' = IF r.bad = <<>> THEN bad ELSE Add(bad, r.bad, l)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, bad>>

\* evaluated on every reached state (as a CONSTRAINT); -workers 1
Record == TLCSet(1, [consumed |-> l - 1, bad |-> bad])
Accepted == JsonSerialize(IOEnv.VERIF_OUT,
              [total |-> Len(Trace), consumed |-> TLCGet(1).consumed, bad |-> TLCGet(1).bad])
=============================================================================
