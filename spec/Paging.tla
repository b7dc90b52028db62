------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* The paging schemes of the services (C13): a listing is collected page   *)
(* by page while the service holds Total items.                            *)
(*   offset : "total" is announced, pages by offset (Blockchair, Blockchain.info)  *)
(*   cursor : pages after the last item seen until an empty page (Blockstream chain, Bitcore) *)
(*   link   : each page names the next (Smartbit)                          *)
(*   once   : a single response, capped; a full response must be reported as excess  *)
(* Any request may fail, which must fail the whole listing.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTotal, PageSizes
Schemes == {"offset", "cursor", "link", "once"}

VARIABLES scheme, total, page, got, pos, state
vars == <<scheme, total, page, got, pos, state>>

Min(a, b) == IF a < b THEN a ELSE b
Init == /\ scheme \in Schemes /\ total \in 0..MaxTotal /\ page \in PageSizes
        /\ got = <<>> /\ pos = 0 /\ state = "start"

PageAt(p) == [i \in 1..(Min(total, p + page) - Min(total, p)) |-> p + i]
Take(more) == /\ got' = got \o PageAt(pos) /\ pos' = pos + page
              /\ state' = IF more THEN "more" ELSE "done"
              /\ UNCHANGED <<scheme, total, page>>
Step == /\ state \in {"start", "more"}
        /\ CASE scheme = "offset" -> Take(pos + page < total)
             [] scheme = "cursor" -> Take(PageAt(pos) # <<>>)
             [] scheme = "link"   -> Take(pos + page < total)
             [] scheme = "once"   -> IF Min(total, page) = page
                                     THEN state' = "excess" /\ UNCHANGED <<scheme, total, page, got, pos>>
                                     ELSE Take(FALSE)
Fault == /\ state \in {"start", "more"} /\ state' = "failed" /\ UNCHANGED <<scheme, total, page, got, pos>>
Next == Step \/ Fault
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Complete == state = "done" => got = [i \in 1..total |-> i]
NoDuplicates == \A i, j \in 1..Len(got) : got[i] = got[j] => i = j
NeverSilentlyShort == state = "done" => Len(got) = total
Terminates == <>(state \in {"done", "excess", "failed"})
=============================================================================
