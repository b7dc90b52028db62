------------------------------ MODULE FeeCache ------------------------------
(***************************************************************************)
(* The fee-advice cache (C14).  Two independent slots, a clock, a cache    *)
(* time that may change at any moment and a service that may be down.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Speeds == {"fast", "hour"}
DefaultFee == [fast |-> 72, hour |-> 62]
Empty == [has |-> FALSE, val |-> 0, at |-> 0]

\* --- the cache itself, as functions, shared with the trace specification
\* c: slots; srv: what the service would answer now ([up, fast, hour]); result [ret, fetch, cache]
Stale(slot, now, ct) == ~slot.has \/ now - slot.at > ct
Answer(c, s, now, ct, srv) ==
    IF ~Stale(c[s], now, ct) THEN [ret |-> c[s].val, fetch |-> FALSE, cache |-> c]
    ELSE IF srv.up THEN [ret |-> srv[s], fetch |-> TRUE, cache |-> [c EXCEPT ![s] = [has |-> TRUE, val |-> srv[s], at |-> now]]]
    ELSE [ret |-> IF c[s].has THEN c[s].val ELSE DefaultFee[s], fetch |-> TRUE, cache |-> c]

CONSTANTS Deltas, CacheTimes, MaxCalls, Downs
VARIABLES cache, now, ct, srv, hist, ver, seen
vars == <<cache, now, ct, srv, hist, ver, seen>>

\* what the service advises, one version after another: rising, falling, staying, down to the smallest
Fast == <<100, 37, 1, 250, 2, 2, 72, 1000, 3, 62, 99, 100, 15, 1>>
Hour == <<200, 12, 1, 1, 90, 62, 3, 500, 72, 2, 99, 41, 200, 5>>
Srv(up, v) == [up |-> up, fast |-> Fast[(v % Len(Fast)) + 1], hour |-> Hour[(v % Len(Hour)) + 1]]
Init == /\ cache = [s \in Speeds |-> Empty] /\ now = 0 /\ ct = 600 /\ ver = 0
        /\ srv = Srv(TRUE, 0) /\ hist = <<>> /\ seen = [s \in Speeds |-> 0]

Ev(x) == hist' = Append(hist, x)
Call(s) == LET a == Answer(cache, s, now, ct, srv) IN
           /\ cache' = a.cache
           /\ seen' = IF a.fetch /\ srv.up THEN [seen EXCEPT ![s] = ver] ELSE seen
           /\ Ev([e |-> "call", speed |-> s, ret |-> a.ret, fetch |-> a.fetch])
           /\ UNCHANGED <<now, ct, srv, ver>>
\* asking past the cache: always the service's own word, and no business of the cache's
Fresh(s) == /\ srv.up /\ Ev([e |-> "fresh", speed |-> s, ret |-> srv[s]]) /\ UNCHANGED <<cache, now, ct, srv, ver, seen>>
Tick(d) == now' = now + d /\ Ev([e |-> "tick", d |-> d]) /\ UNCHANGED <<cache, ct, srv, ver, seen>>
SetTime(t) == t # ct /\ ct' = t /\ Ev([e |-> "ct", t |-> t]) /\ UNCHANGED <<cache, now, srv, ver, seen>>
News(u, down) == /\ ver' = ver + 1 /\ srv' = Srv(u, ver + 1)
                 /\ Ev([e |-> "srv", up |-> u, how |-> down, fast |-> srv'.fast, hour |-> srv'.hour])
                 /\ UNCHANGED <<cache, now, ct, seen>>
Next == \/ \E s \in Speeds : Call(s)
        \/ \E s \in Speeds : Fresh(s)
        \/ \E d \in Deltas : Tick(d)
        \/ \E t \in CacheTimes : SetTime(t)
        \/ \E d \in Downs : News(FALSE, d)
        \/ News(TRUE, "up")

\* The property, independently of how Answer is written.
Last == hist[Len(hist)]
IsCall == hist # <<>> /\ Last.e = "call"
NotOlder == IsCall /\ ~Last.fetch => now - cache[Last.speed].at <= ct
Freshest == IsCall => IF seen[Last.speed] = 0 /\ ~cache[Last.speed].has THEN Last.ret = DefaultFee[Last.speed]
                      ELSE Last.ret = Srv(TRUE, seen[Last.speed])[Last.speed]
FetchedIfUp == IsCall /\ Last.fetch /\ srv.up => Last.ret = srv[Last.speed]
Bound == Len(hist) <= MaxCalls
View == <<cache, now, ct, srv, seen, IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>

Slim(h) == [i \in 1..Len(h) |-> h[i]]
GenNext == \/ Len(hist) < MaxCalls /\ Next
           \/ /\ Len(hist) = MaxCalls /\ PrintT("SCN " \o ToJson(hist))
              /\ hist' = Append(hist, [e |-> "end"]) /\ UNCHANGED <<cache, now, ct, srv, ver, seen>>
=============================================================================
