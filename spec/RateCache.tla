------------------------------ MODULE RateCache ------------------------------
(***************************************************************************)
(* Exchange rates (C15): one cache slot per fiat currency, two providers   *)
(* asked in turn, a cache time that may change, providers that may be down.*)
(* A provider's quote is represented by the satoshi value it denotes.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Providers == {"bitpay", "blockchainrates"}
Empty == [has |-> FALSE, val |-> 0, at |-> 0]
Stale(slot, now, ct) == ~slot.has \/ now - slot.at > ct

CONSTANTS Curs, Deltas, CacheTimes, MaxLen, Downs, Kinds
VARIABLES cache, now, ct, up, quote, hist, ver
vars == <<cache, now, ct, up, quote, hist, ver>>

\* distinct value per currency, provider and version
Val(c, p, v) == 1000 + 97 * ((v * 7) % 9) + (IF p = "bitpay" THEN 0 ELSE 13)
                + 1000 * (CHOOSE i \in 1..Len(Curs) : Curs[i] = c)
CurSet == {Curs[i] : i \in 1..Len(Curs)}

Init == /\ cache = [c \in CurSet |-> Empty] /\ now = 0 /\ ct = 60 /\ ver = 0
        /\ up = [p \in Providers |-> "up"] /\ quote = 0 /\ hist = <<>>
Ev(x) == hist' = Append(hist, x)

\* First provider asked that answers; the order in which they are asked is free.
Answering == {p \in Providers : up[p] = "up"}
Fetch(c, p) == Val(c, p, quote)
Uncached(kind) == kind \in {"to", "from"}

Call(kind, c) ==
    IF ~Uncached(kind) /\ ~Stale(cache[c], now, ct)
    THEN Ev([e |-> "call", kind |-> kind, cur |-> c, out |-> "cached"]) /\ UNCHANGED <<cache, now, ct, up, quote, ver>>
    ELSE IF Answering = {} THEN Ev([e |-> "call", kind |-> kind, cur |-> c, out |-> "error"]) /\ UNCHANGED <<cache, now, ct, up, quote, ver>>
    ELSE \E p \in Answering :
         /\ Ev([e |-> "call", kind |-> kind, cur |-> c, out |-> p])
         /\ cache' = IF Uncached(kind) THEN cache ELSE [cache EXCEPT ![c] = [has |-> TRUE, val |-> Fetch(c, p), at |-> now]]
         /\ UNCHANGED <<now, ct, up, quote, ver>>
Tick(d) == now' = now + d /\ Ev([e |-> "tick", d |-> d]) /\ UNCHANGED <<cache, ct, up, quote, ver>>
SetTime(t) == t # ct /\ ct' = t /\ Ev([e |-> "ct", t |-> t]) /\ UNCHANGED <<cache, now, up, quote, ver>>
Switch(p, how) == up[p] # how /\ up' = [up EXCEPT ![p] = how] /\ Ev([e |-> "up", p |-> p, how |-> how]) /\ UNCHANGED <<cache, now, ct, quote, ver>>
Move == quote' = quote + 1 /\ Ev([e |-> "quote", v |-> quote + 1]) /\ UNCHANGED <<cache, now, ct, up, ver>>
Next == \/ \E kd \in Kinds, c \in CurSet : Call(kd, c)
        \/ \E d \in Deltas : Tick(d)
        \/ \E t \in CacheTimes : SetTime(t)
        \/ \E p \in Providers, h \in Downs \cup {"up"} : Switch(p, h)
        \/ Move

Last == hist[Len(hist)]
CachedIsFresh == hist # <<>> /\ Last.e = "call" /\ Last.out = "cached" => cache[Last.cur].has /\ now - cache[Last.cur].at <= ct
OwnCurrency == \A c \in CurSet : cache[c].has => \E p \in Providers, v \in 0..quote : cache[c].val = Val(c, p, v)
ErrorOnlyIfDown == hist # <<>> /\ Last.e = "call" /\ Last.out = "error" => Answering = {}
Bound == Len(hist) <= MaxLen
View == <<cache, now, ct, up, quote, IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>
GenNext == \/ Len(hist) < MaxLen /\ Next
           \/ /\ Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson(hist))
              /\ hist' = Append(hist, [e |-> "end"]) /\ UNCHANGED <<cache, now, ct, up, quote, ver>>
=============================================================================
