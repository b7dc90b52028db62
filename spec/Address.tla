------------------------------- MODULE Address -------------------------------
(* Output scripts, and what an address string means. *)
EXTENDS Base58, Bech32

P2PKH(h) == <<118, 169, 20>> \o h \o <<136, 172>>
P2SH(h)  == <<169, 20>> \o h \o <<135>>
WitScript(v, p) == <<IF v = 0 THEN 0 ELSE v + 80, Len(p)>> \o p

NoAddr == [ok |-> FALSE, net |-> "none", script |-> <<>>]

\* Meaning of an address given as code points.
DecodeAddr(s) ==
    LET w == SegwitDecode(s) IN
    IF w.ok THEN [ok |-> TRUE, net |-> w.net, script |-> WitScript(w.ver, w.prog)]
    ELSE LET d == B58CheckDecode(s) IN
         IF ~d.ok \/ Len(d.data) # 21 THEN NoAddr
         ELSE LET h == Tail(d.data) IN
              CASE d.data[1] = 0   -> [ok |-> TRUE, net |-> "main", script |-> P2PKH(h)]
                [] d.data[1] = 5   -> [ok |-> TRUE, net |-> "main", script |-> P2SH(h)]
                [] d.data[1] = 111 -> [ok |-> TRUE, net |-> "test", script |-> P2PKH(h)]
                [] d.data[1] = 196 -> [ok |-> TRUE, net |-> "test", script |-> P2SH(h)]
                [] OTHER           -> NoAddr
AddrOf(str) == DecodeAddr(Codes(str))

PkhVersion(net) == IF net = "main" THEN 0 ELSE 111
ShVersion(net)  == IF net = "main" THEN 5 ELSE 196
WifVersion(net) == IF net = "main" THEN 128 ELSE 239

PkhAddress(pub, net)    == B58CheckEncode(<<PkhVersion(net)>> \o Hash160(pub))
ScriptAddress(rs, net)  == B58CheckEncode(<<ShVersion(net)>> \o Hash160(rs))
NestedKeyAddress(pub, net) == ScriptAddress(<<0, 20>> \o Hash160(pub), net)
NestedScriptAddress(rs, net) == ScriptAddress(<<0, 32>> \o SHA256(rs), net)
WifOf(secret, compressed, net) ==
    B58CheckEncode(<<WifVersion(net)>> \o secret \o (IF compressed THEN <<1>> ELSE <<>>))
=============================================================================
