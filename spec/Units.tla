-------------------------------- MODULE Units --------------------------------
(* Currencies: satoshi per unit and decimals; exact conversion (C15, C16).    *)
EXTENDS BigNat, TLC

Fixed == {"satoshi", "ubtc", "mbtc", "btc"}
UnitSat(c) == CASE c = "satoshi" -> <<1>> [] c = "ubtc" -> <<100>> [] c = "mbtc" -> <<0, 10>> [] c = "btc" -> <<0, 0, 1>>
Decimals(c) == CASE c = "satoshi" -> 0 [] c = "ubtc" -> 2 [] c = "mbtc" -> 5 [] c = "btc" -> 8
                 [] c \in {"jpy", "krw", "clp"} -> 0 [] OTHER -> 2

\* sat = floor(n / 10^d * rate)
IsFloorOf(sat, n, d, rate) ==
    LET x == Mul(n, rate)  y == Mul(sat, Pow10(d)) IN Le(y, x) /\ Lt(x, Add(y, Pow10(d)))
\* q / 10^p = floor of num / rate at p decimals
IsQuote(q, p, num, rate) ==
    LET x == Mul(num, Pow10(p)) IN Le(Mul(q, rate), x) /\ Lt(x, Mul(Add(q, <<1>>), rate))
=============================================================================
