------------------------------ MODULE Overlap --------------------------------
(***************************************************************************)
(* Cached advice (fees, C14; exchange rates, C15) asked for by several     *)
(* callers whose requests overlap: a caller that finds its slot stale asks *)
(* the service; while its request is under way time passes and others ask. *)
(* The answer is stored with the time at which its caller began.  Nobody,  *)
(* however the calls overlap, gets advice older than the cache time at the *)
(* moment of asking while the service answers, and nobody gets nothing.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Deltas, CacheTime, MaxLen, MaxDepth, MaxDown
VARIABLES now, slot, stack, ans, ver, done, hist
vars == <<now, slot, stack, ans, ver, done, hist>>
None == [has |-> FALSE, ver |-> 0, at |-> 0]
Stale(s, t) == ~s.has \/ t - s.at > CacheTime
Last == hist[Len(hist)]
Ev(x) == hist' = Append(hist, x)
\* ans[v]: when the service gave version v; done: the last call that returned
Init == /\ now = 0 /\ slot = [k \in Keys |-> None] /\ stack = <<>> /\ ans = <<>> /\ ver = 0
        /\ done = [ret |-> -1, start |-> 0, down |-> FALSE] /\ hist = <<>>
Ask(k) ==
    /\ Len(stack) < MaxDepth
    /\ IF Stale(slot[k], now)
       THEN stack' = Append(stack, [key |-> k, start |-> now]) /\ done' = done
       ELSE stack' = stack /\ done' = [ret |-> slot[k].ver, start |-> now, down |-> FALSE]
    /\ Ev([e |-> "ask", key |-> k]) /\ UNCHANGED <<now, slot, ans, ver>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
\* Only the innermost request can finish: the others wait, which is an order a network may produce.
ReplyUp ==
    /\ stack # <<>>
    /\ ans' = Append(ans, now) /\ ver' = ver + 1
    /\ slot' = [slot EXCEPT ![Top.key] = [has |-> TRUE, ver |-> ver + 1, at |-> Top.start]]
    /\ done' = [ret |-> ver + 1, start |-> Top.start, down |-> FALSE]
    /\ stack' = Pop /\ Ev([e |-> "reply", up |-> TRUE]) /\ now' = now
ReplyDown ==
    /\ stack # <<>> /\ Cardinality({i \in 1..Len(hist) : hist[i].e = "reply" /\ ~hist[i].up}) < MaxDown
    /\ done' = [ret |-> IF slot[Top.key].has THEN slot[Top.key].ver ELSE 0, start |-> Top.start, down |-> TRUE]
    /\ stack' = Pop /\ Ev([e |-> "reply", up |-> FALSE]) /\ UNCHANGED <<now, slot, ans, ver>>

Tick(d) == /\ hist # <<>> /\ Last.e # "tick" /\ now' = now + d /\ Ev([e |-> "tick", d |-> d]) /\ UNCHANGED <<slot, stack, ans, ver, done>>
Next == \/ \E k \in Keys : Ask(k)
        \/ ReplyUp \/ ReplyDown
        \/ \E d \in Deltas : Tick(d)
\* The property.
NeverStale == done.ret > 0 /\ ~done.down => done.start - ans[done.ret] <= CacheTime
NeverMissing == done.ret = 0 => done.down
Bound == Len(hist) <= MaxLen
View == <<now, slot, stack, ans, ver, done, IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>
GenNext == \/ Len(hist) < MaxLen /\ Next
           \/ /\ Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson(hist))
              /\ hist' = Append(hist, [e |-> "end"]) /\ UNCHANGED <<now, slot, stack, ans, ver, done>>
=============================================================================
