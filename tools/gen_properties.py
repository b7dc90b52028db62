#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list is easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

W, T, S = "bit/wallet.py", "bit/transaction.py", "bit/network/services.py"

p("C01", "Every payment output is exactly what was requested",
  "For every wallet kind and every combination of options, a created transaction contains the requested outputs in the requested order, each with exactly the requested amount in satoshi and the script of exactly the requested address, followed by at most one change output and then the message outputs, and nothing else. Change, when present, goes only to the caller's chosen change address or, by default, back to the spending wallet (its segwit address when any offered coin is segwit, its legacy address otherwise).",
  ["inputs", "configurations"], "all wallet kinds (single-key and multisig, main and test), coin sets, output lists, change addresses, messages, fee modes and amount units",
  "Tests build a handful of fixed transactions; the guarantee is about every combination of four separately written wallet classes with nine options and five address forms.",
  [W, T], [("payment assembly", "transaction.sanitize_tx_data"), ("output scripts", "transaction.construct_outputs"), ("four wallet entry points", "wallet.*.create_transaction")],
  observe_at=["hex returned by create_transaction"])

p("C02", "Value is conserved and the fee is the one that was agreed",
  "Inputs minus outputs is always exactly the fee: with an absolute fee (zero included) it is that amount to the satoshi; with a fee rate and coins combined, or whenever change is made, it is the rate times the library's size estimate (recorded coin sizes, output script sizes, counts and header), all remaining value returning as change. When coins are not combined and an exact match is used there is no change, and the surplus over the cost of the selected coins and outputs is never negative and never above the rate times 182 bytes.",
  ["inputs", "configurations"], "all coin amounts, sizes and kinds, target amounts, fee rates and absolute fees, selection modes and random choices",
  "A wrong fee still yields a valid transaction, so nothing fails; only an independent account of where every satoshi went, over all modes and random selections, shows it.",
  [T], [("coin selection and remaining value", "transaction.select_coins"), ("size estimate", "transaction.estimate_tx_fee"), ("change decision", "transaction.sanitize_tx_data")],
  observe_at=["input amounts vs. output amounts of the created transaction"])

p("C03", "Coins spent are offered coins, each once, and shortage is reported",
  "A transaction spends only coins that were offered, each at most once, and at least one; when combining it spends all of them in the offered order. Otherwise, given a fee rate, it uses an exact match whenever one exists among the offered coins (for coin sets small enough to search completely), and falls back to a random selection that stops as soon as the coins cover payment and fee. It fails with the insufficient-funds error whenever no selection of the offered coins funds payment plus fee, never when all of them together do, and having no coins to spend is refused.",
  ["inputs", "schedules"], "all offered coin lists, including duplicate amounts and coins worth less than their own cost, and all random choices made by the selector",
  "The selector is randomised and exponential; sampled runs cannot show that no random choice loses, repeats or over-selects a coin.",
  [T], [("branch and bound", "transaction.select_coins.branch_and_bound"), ("single random draw", "transaction.select_coins")],
  observe_at=["transaction inputs", "raised exception"])

p("C04", "A fully signed transaction is valid under the Bitcoin consensus rules",
  "Whenever the library returns a transaction whose inputs all belong to the signing wallet and which needs no further signer, every input satisfies the script of the coin it spends under the consensus rules: correct unlocking script or witness for legacy and nested-segwit coins, compressed and uncompressed keys, single-key and multisig, with signatures that verify over the correct digest. This holds for any number of inputs and outputs, any coin amount, any mix of coin kinds and any sequence numbers.",
  ["inputs", "configurations"], "all keys, coin kinds and mixes, input and output counts across varint boundaries, amounts up to 21 million bitcoin, multisig policies",
  "Tests compare against a few recorded hex strings; validity must hold for every key, digest, count and mix, and an invalid signature is only seen when the network rejects the payment.",
  [T, W, "bit/format.py"], [("digest computation", "transaction.calculate_preimages"), ("unlocking scripts and witnesses", "transaction.sign_tx"), ("script codes", "wallet.*.scriptcode")],
  observe_at=["hex returned by create_transaction / sign_transaction"])

p("C05", "Multisig co-signing reaches a valid spend in any signing order",
  "For an m-of-n contract, passing a transaction through any m distinct co-signers in any order, with any repeats before completion, gives a transaction in which every input is valid, with the same result independent of order for a given set of signers; with fewer than m distinct signers no input is accepted. A co-signer signing twice changes nothing, existing co-signers' signatures are never dropped, and asking for another signature on a complete transaction is refused.",
  ["schedules", "histories"], "all contracts within the script size limit, all signing orders, repeated signers, forked partial copies, legacy and segwit inputs mixed in one transaction",
  "The number of orders and repeats is combinatorial and the partially signed form is stored only inside the transaction itself; tests follow one or two orders of 2-of-3.",
  [T, "bit/utils.py", W], [("signature collection and ordering", "transaction.sign_tx"), ("signature recovery from partial scripts", "utils.get_signatures_from_script")],
  observe_at=["hex returned by each sign_transaction"])

p("C06", "Signing only ever adds the signer's own authorisation",
  "Signing an existing transaction never changes its version, lock time, inputs, sequence numbers, outputs or their order, never touches the unlocking data of inputs the signer cannot sign or was given no coin for, and always returns a well-formed transaction. Several independent wallets can therefore sign their own inputs of one transaction in any order and end with every input valid.",
  ["schedules", "inputs"], "all transactions with any mix of own and foreign, legacy and segwit inputs, given in legacy or segwit serialisation, and all orders of signers",
  "Batching mixes foreign inputs in arbitrary states; corruption of someone else's input is invisible to the signer's own tests.",
  [T, W], [("selection of inputs to sign", "transaction.sign_tx"), ("re-serialisation", "transaction.TxObj.__bytes__"), ("entry points", "wallet.*.sign_transaction")],
  observe_at=["transaction before and after sign_transaction"])

p("C07", "Transactions survive parse and serialise, and ids are right",
  "For every well-formed transaction, legacy or segwit, parsing it and serialising it again gives back the identical bytes, and its computed id is the reversed double hash of the serialisation without witness data. The id returned by sending is the id of exactly the transaction that was broadcast. Bytes or text that are not exactly one complete transaction (cut short, followed by more, or with lengths written in a longer form than needed) are refused, never read as some other transaction.",
  ["inputs"], "all transactions: any version, lock time, counts and script or witness lengths across every length-prefix boundary, any witness shape; and all ways of cutting, extending and altering them",
  "Length prefixes change form at 253, 65536 and 4294967296, and witness stacks have arbitrary shape; recorded examples never leave the one-byte case.",
  [T, "bit/utils.py"], [("parser", "transaction.deserialize"), ("serialiser", "transaction.TxObj.__bytes__"), ("id", "transaction.calc_txid"), ("length prefixes", "utils.int_to_varint / read_var_int")],
  observe_at=["deserialize(hex).to_hex()", "calc_txid(hex)", "send()"])

p("C08", "An address means exactly one script and bad addresses are refused",
  "Each valid address (base58 public-key-hash and script-hash, and BIP-173 bech32 of every witness version, main and test) is turned into exactly its standard output script and identified with its network. Any other string (bad checksum, foreign version, wrong payload length, mixed case, bad characters or padding, invalid witness program, wrong prefix) is refused with a value error and never produces a script, so money cannot be sent to a mistyped address.",
  ["inputs"], "all strings: every address form, payload, witness version and length, and every corruption of a valid address",
  "The space of mistyped addresses is unbounded and money sent to a wrong script is gone.",
  [T, "bit/format.py", "bit/base58.py", "bit/base32.py"], [("address decoding", "transaction.address_to_scriptpubkey"), ("network identification", "format.get_version"), ("base58check", "base58.b58decode_check"), ("bech32", "base32.decode")],
  observe_at=["address_to_scriptpubkey(address)", "get_version(address)"])

p("C09", "Private keys survive every export/import and derive the right addresses",
  "Exporting a key in any supported form (WIF, hex, bytes, integer, DER, PEM) and importing it again gives the same secret; WIF also preserves network and key compression and selects the matching key class. Public key, public point, legacy address and nested-segwit address are exactly those the secret determines, the point converts back to both forms of the public key (no segwit address for an uncompressed key), and text with a wrong checksum, foreign version byte or invalid character is refused as a key.",
  ["inputs", "configurations"], "all secrets in the group range, including those with leading zero bytes or ending in the compression marker byte, both networks, both compressions, every form",
  "Encodings fail on rare byte patterns (leading zeros, trailing 01) that a few sample keys never hit; a key that re-imports differently loses funds.",
  [W, "bit/format.py", "bit/base58.py", "bit/curve.py"], [("WIF", "format.bytes_to_wif / wif_to_bytes"), ("addresses", "format.public_key_to_address"), ("class selection", "wallet.wif_to_key")],
  observe_at=["to_*/from_* of the key classes", "address properties"])

p("C10", "Main and test networks never mix",
  "A mainnet wallet never pays or returns change to a testnet address and a testnet wallet never to a mainnet one: the attempt, whether to create, prepare or send the payment, is refused with a value error before anything is signed or sent. Mainnet operations contact only mainnet endpoints and testnet operations only testnet endpoints, multisig contracts accept only keys of their own network, and every derived address is of the wallet's own network.",
  ["inputs", "configurations"], "all wallet kinds and operations against all address forms of both networks, as payment and as change address",
  "The two networks are implemented by duplicated classes and endpoint tables; one wrong table entry in one rarely used path suffices.",
  [W, T, S], [("network sanity check", "transaction.sanitize_tx_data"), ("endpoint tables", "services.*API"), ("per-network service lists", "services.NetworkAPI")],
  observe_at=["raised exceptions", "URLs contacted"])

p("C11", "A query is answered as long as one service works",
  "For every query (balance, transactions, transaction by id, unspents) on each network, services are tried one after another until one gives an answer, and that answer is returned unchanged; a refused connection, timeout, error status at any page or a service's admission that it cannot list everything only moves on to the next service (a status a service uses to say that nothing was found is an answer). Services after the one that answered are not contacted, and the connection error is raised only after every configured service has failed.",
  ["fault_sequences"], "all assignments of outcomes (answer, connection refused, timeout, error status at first or later request, excessive address) to all services of all queries on both networks",
  "The fault space is exponential in services and failure kinds; tests mostly replace services by trivial stubs.",
  [S], [("failover loops", "services.NetworkAPI.get_*"), ("service adapters", "services.*API"), ("ignored errors", "services.NetworkAPI.IGNORED_ERRORS")],
  observe_at=["HTTP requests made", "value or exception returned"])

p("C12", "Broadcasting stops at first acceptance and never claims false success",
  "Broadcasting submits exactly the given transaction to one service after another until one accepts it, then stops and returns normally. If none accepts it raises a connection error after trying every configured service once, saying the broadcast failed if any service answered with a rejection and that services are unreachable if none answered; sending returns an id only after an acceptance.",
  ["fault_sequences"], "all assignments of accept, reject, connection refused and timeout to all services on both networks",
  "Double submission or swallowed rejection appears only under particular sequences of service outcomes.",
  [S, W], [("broadcast loop", "services.NetworkAPI.broadcast_tx / broadcast_tx_testnet"), ("submission", "services.*API.broadcast_tx")],
  observe_at=["HTTP posts made", "exception or return", "send()"])

p("C13", "Paged results are complete, with every item exactly once",
  "Whatever the number of transactions or unspents of an address, each service's listing returns every item the service holds exactly once, with the amount, outpoint, script and confirmation count it reported, following the service's own paging scheme; when a service cannot list everything it signals this rather than returning a truncated list.",
  ["inputs", "histories"], "all result sizes around every page boundary, for every service and listing on both networks",
  "Page sizes are 25 to 1000, so multi-page histories are never seen in unit tests, and each service pages differently.",
  [S], [("paging loops", "services.*API.get_transactions / get_unspent")],
  observe_at=["list returned", "HTTP requests made"])

p("C14", "Fee advice is never older than the cache time and never missing",
  "The cached fee advice returned for each speed is the value most recently fetched for that speed, and is re-fetched whenever it is older than the cache time in force, but not before. If the service is unreachable or answers with an error, the last known value for that speed, or the documented default if there is none, is returned and the fetch is retried on the next call; the two speeds never affect each other. Advice asked for without the cache is always the service's own at that moment. A caller that asks while another's request is still under way is held to the same: no advice older than the cache time while the service answers, and never none.",
  ["histories", "fault_sequences", "schedules"], "all sequences and overlaps of calls for both speeds, clock advances, service value changes, outages and cache-time changes",
  "Staleness depends on the history of calls, outages and clock values, not on any single call.",
  ["bit/network/fees.py"], [("fee cache", "fees.get_fee_local_cache")],
  observe_at=["get_fee_cached(fast)", "requests made"])

p("C15", "Exchange rates are current, per currency, and fail over",
  "For every supported fiat currency the satoshi value used is the one most recently obtained for that same currency, no older than the cache time in force and not re-fetched before it expires; fetching asks the providers in turn and uses the first that answers. If no provider answers a needed fetch a connection error is raised and no amount is computed from a stale or foreign rate; uncached conversions always ask afresh. This holds also for a caller that asks while another's request is still under way.",
  ["histories", "fault_sequences", "schedules"], "all sequences and overlaps of conversions over all currencies, clock advances, rate changes, provider outages and cache-time changes",
  "21 separately written provider chains and a per-currency cache: a cross-wired currency or stale entry needs a particular history to show.",
  ["bit/network/rates.py"], [("rate cache", "rates.currency_to_satoshi_local_cache"), ("provider chains", "rates.RatesAPI"), ("providers", "rates.BitpayRates / BlockchainRates")],
  observe_at=["currency_to_satoshi(_cached)", "satoshi_to_currency(_cached)", "requests made"])

p("C16", "Amount conversion is exact and never rounds up",
  "Converting an amount of satoshi, ubtc, mbtc or btc (given as integer, decimal string, decimal or float) yields exactly the whole number of satoshi it denotes, dropping only fractions of a satoshi; an amount of fiat currency yields the amount times the rate, likewise rounded down; converting satoshi to any currency yields the value rounded down to that currency's number of decimals, written in plain notation. Results do not depend on what other operations ran earlier in the process.",
  ["inputs", "histories"], "all amounts up to 21 million bitcoin in every unit and numeric form, all currencies and rates, after any other library operation",
  "Loss of a satoshi needs particular digits, and global arithmetic state set elsewhere changes results only after a particular earlier call.",
  ["bit/network/rates.py", "bit/utils.py"], [("conversion", "rates.currency_to_satoshi / satoshi_to_currency"), ("float-safe decimals", "utils.Decimal")],
  observe_at=["conversion results", "balance_as()"])

p("C17", "Replace-by-fee is signalled exactly when asked for",
  "When replace-by-fee is requested every input of the created transaction carries a sequence number below the final two values, and a coin's lower sequence number is kept; when it is not requested every input carries exactly its coin's own sequence number, the maximum by default. The choice survives cold-storage preparation and is covered by the signatures.",
  ["inputs", "configurations"], "all wallet kinds, coin sequence numbers, selection modes, created or prepared transactions",
  "Tests look at one wallet; four wallet classes and eight entry points pass the flag separately.",
  [W, T, "bit/network/meta.py"], [("opt-in", "meta.Unspent.opt_in_for_RBF"), ("plumbing", "transaction.sanitize_tx_data / create_new_transaction")],
  observe_at=["sequence numbers of the created transaction"])

p("C18", "Refreshing a wallet is all-or-nothing and the balance matches its coins",
  "After a successful refresh a wallet's coins are exactly the coins of its legacy address followed by those of its segwit address, each marked with the kind and size needed to spend it, and its balance is exactly their sum; its history is likewise that of both addresses. If any part of a refresh fails, the wallet's coins, balance and history are those of before.",
  ["fault_sequences", "histories"], "all wallet kinds and sequences of refreshes with success, failure on the first address and failure on the second",
  "The inconsistent state exists only when the second of two queries fails after an earlier successful refresh with different contents.",
  [W], [("refresh", "wallet.*.get_unspents / get_transactions / get_balance")],
  observe_at=["unspents, balance and transactions attributes"])

p("C19", "A prepared transaction signed offline equals the online one",
  "For the same coins and options, preparing a transaction and signing the prepared text with the wallet's key gives exactly the transaction direct creation would give, for every option including messages, the change address given, fee mode and replace-by-fee. The prepared text contains no secret, and coins fetched during preparation for a single-key wallet are marked with the kind their address implies so that the signed result is valid.",
  ["inputs", "configurations"], "all wallet kinds, coin kinds, options and amounts; coins supplied or fetched",
  "Prepare and create are separate code paths repeated in four classes joined by a text format.",
  [W, T], [("preparation", "wallet.*.prepare_transaction"), ("signing of prepared data", "wallet.*.sign_transaction"), ("coin text form", "meta.Unspent.to_dict / from_dict")],
  observe_at=["prepare_transaction text", "sign_transaction hex"])

p("C20", "Embedded messages can be read back exactly",
  "A message of any length embedded in a transaction is carried in zero-value data outputs after all payments, each a single well-formed data push of at most 80 bytes, and joining the pushed data in order gives exactly the message's bytes (UTF-8 for text). Without a message there are no data outputs.",
  ["inputs"], "all messages: empty, any length across chunk and push-opcode boundaries, multi-byte text, raw bytes; all wallet kinds",
  "Push encoding changes at 76 bytes and chunking at 80; a malformed push is still accepted by every existing test.",
  [T], [("chunking", "transaction.sanitize_tx_data"), ("data outputs", "transaction.construct_outputs")],
  observe_at=["outputs of the created transaction"])

p("C21", "Vanity generation returns a matching address and a key that owns it",
  "Generating a key for a prefix always returns an address that starts with the requested prefix (after the leading 1, which may be given or left out) together with a WIF which, when imported, controls exactly that address; prefixes with characters that cannot occur in an address are refused. With any number of worker processes the search ends once a match is found and reports exactly one match.",
  ["schedules", "inputs"], "all prefixes, core counts and interleavings of the workers and the polling parent",
  "Several processes race through a shared event, counter and queue; one observed run says nothing about other interleavings.",
  ["bit/keygen.py", "bit/cli.py"], [("worker protocol", "keygen.generate_matching_address / generate_key_address_pairs"), ("pair generation", "keygen.generate_key_address_pair")],
  observe_at=["returned pair or printed WIF and address"])

p("C22", "A connected node replaces the web services faithfully",
  "After connecting to a node for a network, every operation on that network goes only to that node, with the scheme, path, credentials and certificate check given when connecting, and the other network is unaffected. Balances and unspents reported by the node are converted to satoshi exactly, ids and raw transactions are passed through, a node's refusal of a broadcast makes broadcasting fail, node-reported errors surface as node errors, and an unreachable node as a connection error. The object returned by connecting gives direct access to that node's own calls, each made with exactly the given name and arguments and its result returned unchanged.",
  ["configurations", "fault_sequences"], "all operations on both networks before and after connecting one or both, all node answers, errors and outages, all amounts",
  "Redirection rewrites shared tables at run time and amounts arrive as decimal numbers; tests use a fake with one small amount.",
  [S], [("redirection", "services.NetworkAPI.connect_to_node"), ("node adapter", "services.RPCHost / RPCMethod")],
  observe_at=["HTTP requests to the node", "results and exceptions"])

p("C23", "A multisig contract encodes exactly the agreed policy",
  "A contract's redeem script requires exactly m signatures from exactly the given public keys, in list order if a list was given and sorted order if a set was given, and its legacy and nested-segwit addresses commit to exactly that script (no segwit address if any key is uncompressed), identically for every co-signer. A key not among the public keys, a threshold below one or above the number of keys, malformed key lengths or a script over 520 bytes are refused.",
  ["inputs", "configurations"], "all m, n and key lists or sets, as hex or bytes, compressed, uncompressed and mixed, both networks",
  "Co-signers build the contract independently; a disagreement only appears when funds cannot be spent.",
  [W, "bit/format.py"], [("redeem script", "format.multisig_to_redeemscript"), ("addresses", "format.multisig_to_address / multisig_to_segwit_address"), ("contract construction", "wallet.MultiSig.__init__")],
  observe_at=["redeemscript, public_keys, address, segwit_address"])

p("C24", "The fee rate really paid matches the rate requested",
  "For coins of the spending wallet, marked as the wallet marks them on refresh, the fee of the finished transaction divided by its real virtual size is not below the requested rate by more than a few bytes' worth (three plus a quarter byte per input) and not above it by more than a small per-input and per-output allowance. This holds for every wallet kind, multisig policy, coin mix, output mix, and message.",
  ["inputs", "configurations"], "all wallet kinds and multisig policies, coin kinds, numbers of inputs and outputs, output types and messages",
  "Estimated sizes are constants and formulas repeated per class; a wrong one underpays only for that kind of coin and policy.",
  [T, W, "bit/network/meta.py"], [("coin sizes", "meta.UNSPENT_TYPES, wallet.MultiSig*.get_unspents"), ("transaction estimate", "transaction.estimate_tx_fee")],
  observe_at=["fee and virtual size of the created transaction"])

p("C25", "Payments leave nothing behind",
  "Creating, preparing or sending a transaction never changes the outputs or coins passed in (neither the lists nor the coins themselves), nor the wallet's record of its coins and balance except by the refresh it performs when no coins are passed; options of one payment never leak into the next, so the same request over the same coins, all combined, gives the same transaction every time; and a payment that fails changes nothing beyond such a refresh.",
  ["histories", "inputs"], "all histories of payments with any mix of options, coins passed or fetched, successful or refused, on every wallet kind and through every entry point",
  "Tests make one payment per wallet; what a payment leaves behind appears only in the next one.",
  [T, W], [("coin selection on the caller's list", "transaction.sanitize_tx_data"), ("replace-by-fee opt-in on shared coin objects", "meta.Unspent.opt_in_for_RBF"), ("wallet entry points", "wallet.*.create_transaction / prepare_transaction / send")],
  observe_at=["caller's lists and coins after the call", "unspents and balance attributes", "repeated transactions"])

p("C26", "Data signatures verify for exactly the signing key and data",
  "A signature made by a key over any data is a strict DER, low-S ECDSA signature over its SHA-256, is the same every time, never shares its nonce with a signature over other data or by another key, and is accepted by that key's verification; verification accepts nothing else: other data, another key, an altered, high-S, out-of-range, truncated or malformed signature is refused (false or a value error), never accepted.",
  ["inputs"], "all keys (compressed or not, both networks, multisig participants), data of any length, and signatures damaged in every structural way",
  "Tests verify two fixed pairs; nonce reuse or over-acceptance is invisible to them.",
  [W, "bit/format.py"], [("signing and verifying", "wallet.BaseKey.sign / verify"), ("signature verification", "format.verify_sig")],
  observe_at=["sign results", "verify results"])

p("C27", "New keys are fresh",
  "Every newly generated key is a valid secret that never repeats: not within a process, not across processes started or forked alike, and not under an identical state of the ordinary random generator; all bits of new secrets vary, and a new key has the form and network of the class that was asked for, in every way of generating one (new key of either network, random key pair for vanity search).",
  ["inputs", "schedules"], "all ways of generating keys, in one process, in forked children and after reseeding the general random generator",
  "Tests check only that two keys differ.",
  [W, "bit/keygen.py"], [("key construction", "wallet.BaseKey.__init__"), ("pair generation", "keygen.generate_key_address_pair")],
  observe_at=["exported secrets of new keys"])

p("C28", "A silent service delays a caller only by the timeout in force",
  "Every request made to a web service while querying or broadcasting, whether the first or a later page and on either network, is bounded by the service timeout in force: at most ten seconds until one is set, and exactly the value last set from then on, for all services alike. A service that never answers can therefore hold up a caller no longer than that before the next one is tried.",
  ["histories", "fault_sequences"], "all operations on both networks, all sets of silent services, silence at the first or a later request, and all histories of setting the timeout",
  "Each of some fifty request sites passes the timeout itself; a missing one shows only when that very request meets silence.",
  [S], [("timeout setting", "services.set_service_timeout / DEFAULT_TIMEOUT"), ("request sites", "services.*API.*")],
  observe_at=["timeout with which each HTTP request reaches the transport"])

p("C29", "A secret leaves a wallet only by explicit export",
  "Whatever is done with a loaded key or multisig wallet (showing, querying, refreshing, paying, preparing, signing, sending, connecting a node, building contracts, comparing, wrong use of any of these), with whatever outcome, nothing that becomes visible outside the calls made for exporting (requests to services or nodes, transactions, prepared texts, other results, error messages, log records, warnings, console output, printed forms, files) contains its private key or a substantial part of it in any written form; exporting hands it to the caller and shows it nowhere else; and no two different signatures, of whatever kind and by whichever keys, share a nonce, from which keys could be computed.",
  ["inputs", "histories", "fault_sequences"], "all operations of all wallet kinds with all outcomes, in any order; hex, raw, WIF, decimal and base64 forms of the secret",
  "Tests compare results and never look at the other channels or at failing calls' texts.",
  [W, T, "bit/format.py"], [("printed forms", "wallet.*.__repr__"), ("signing", "transaction.sign_tx"), ("error texts", "wallet / transaction / format")],
  observe_at=["requests, results, exceptions, log, console, files and printed forms while a wallet is used"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
