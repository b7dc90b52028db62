From 2a82dd406ed270224bf58e5f6da01a5b985fffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 01/25] fix: encode OP_RETURN data of 76 to 80 bytes with a
 proper PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..c732899 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -482,7 +482,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From 9bd616cef83e80dcf5b97e647497c462d273a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 02/25] fix: count the full size of message outputs in the fee
 estimate

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c732899..8f56b01 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -419,7 +419,7 @@ def sanitize_tx_data(
     # Include return address in output count.
     # Calculate output size as a list (including return address).
     output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]
-    output_size.append(len(messages) * (MESSAGE_LIMIT + 9))
+    output_size.append(len(messages) * (MESSAGE_LIMIT + 12))
     output_size.append(len(address_to_scriptpubkey(leftover)) + 9)
     sum_outputs = sum(out[1] for out in outputs)
 
-- 
2.43.0


From 3439b5b19ec421d5bca7a3487c5b8d5fe569c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 03/25] fix: keep partially signed multisig inputs well-formed
 when a signer signs again

---
 bit/transaction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 8f56b01..b8862a2 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -651,9 +651,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -668,6 +665,10 @@ def sign_tx(private_key, tx, *, unspents):
                     raise ValueError('Transaction is already signed with sufficiently needed signatures.')
 
             sigs[public_key] = signature
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
 
             witness = b''
             # Sort ingthe signatures according to the public-key list:
-- 
2.43.0


From 04532d68f580611fe73b0e8f56cd57a2ebc83ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 04/25] fix: serialise an empty witness for every input without
 one in a segwit transaction

---
 bit/transaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index b8862a2..bdca392 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -152,7 +152,9 @@ class TxObj:
     def __bytes__(self):
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
-        wit = b''.join([w.witness for w in self.TxIn])
+        wit = b''
+        if any(i.witness for i in self.TxIn):
+            wit = b''.join([i.witness or b'\x00' for i in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From 44fbaa5678512f6e4ceb8b6ecca46d959214621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 05/25] fix: convert node balances exactly and leave the global
 decimal context alone

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..e99b9b0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), "btc")
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From da09b38c83bd87e9c38d977fa3d1955dc08db4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 06/25] fix: let Bitcore balance errors fail over to the next
 service

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e99b9b0..1dcde7c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From 9595f10bdd9d57e53aba26e8774596aee436734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 07/25] fix: treat an error status on a follow-up page as a
 failed service

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 1dcde7c..93f5d36 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From 33d83f3d8fa4edc0ab45006b735d31b53658c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 08/25] fix: Blockchair returns an empty list of unspents for
 an unknown address

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 93f5d36..c8e1ad3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 02d2e88071d182940326d67287d3a075e2d1adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 09/25] fix: refresh wallet unspents and transactions all or
 nothing

---
 bit/wallet.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..c352c25 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -231,14 +231,15 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+            unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -247,9 +248,10 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -628,16 +630,17 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent_testnet(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent_testnet(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -646,9 +649,10 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1069,11 +1073,12 @@ class MultiSig:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize:
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
+        unspents = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wsh', add_np2wsh_vsize), NetworkAPI.get_unspent(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1082,9 +1087,10 @@ class MultiSig:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1392,16 +1398,17 @@ class MultiSigTestnet:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(
+        unspents = list(
             map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent_testnet(self.address))
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(
                     lambda u: u.set_type('np2wsh', add_np2wsh_vsize),
                     NetworkAPI.get_unspent_testnet(self.segwit_address),
                 )
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1410,9 +1417,10 @@ class MultiSigTestnet:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
-- 
2.43.0


From 6fcad2d64c38ba477c8275bb38f0dbfe2da7453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:47 +0000
Subject: [PATCH 10/25] fix: let prepared transactions carry messages

---
 bit/transaction.py | 3 +++
 bit/wallet.py      | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index bdca392..8172d79 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -484,6 +484,9 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            if isinstance(dest, str):  # Hex-encoded by ``prepare_transaction``
+                dest = hex_to_bytes(dest)
+
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index c352c25..6fe4204 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -457,7 +457,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -858,7 +858,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1231,7 +1231,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1561,7 +1561,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From 4da5054ef0e767d76db473802a36324883977fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:04 +0000
Subject: [PATCH 11/25] fix: mark coins fetched for an offline transaction with
 the type of their address

---
 bit/wallet.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 6fe4204..04ec145 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -22,7 +22,7 @@ from bit.transaction import (
     deserialize,
     address_to_scriptpubkey,
 )
-from bit.constants import OP_0, OP_PUSH_20, OP_PUSH_32
+from bit.constants import OP_0, OP_HASH160, OP_PUSH_20, OP_PUSH_32
 
 from bit.utils import hex_to_bytes, bytes_to_hex, int_to_varint
 
@@ -42,6 +42,16 @@ def wif_to_key(wif):
             return PrivateKeyTestnet(wif)
 
 
+def mark_unspents(unspents, address, compressed=True):
+    """Marks unspents fetched for a single-key address with the type needed to
+    spend them."""
+    if address_to_scriptpubkey(address)[:1] == OP_HASH160:
+        unspent_type = 'np2wkh'
+    else:
+        unspent_type = 'p2pkh' if compressed else 'p2pkh-uncompressed'
+    return [unspent.set_type(unspent_type) for unspent in unspents]
+
+
 class BaseKey:
     """This class represents a point on the elliptic curve secp256k1 and
     provides all necessary cryptographic functionality. You shouldn't use
@@ -443,7 +453,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            unspents or mark_unspents(NetworkAPI.get_unspent(address), address, compressed),
             outputs,
             fee or get_fee_cached(),
             leftover or address,
@@ -844,7 +854,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            unspents or mark_unspents(NetworkAPI.get_unspent_testnet(address), address, compressed),
             outputs,
             fee or get_fee_cached(),
             leftover or address,
-- 
2.43.0


From 4d128b149d77cee0e028d8014cc4933a32e1b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:04 +0000
Subject: [PATCH 12/25] fix: export vanity keys as compressed so that they own
 the generated address

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From 3a4948923530f80613645ad874c65dce7bc09187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 13/25] fix: refuse addresses with a wrong payload length or an
 invalid witness program

---
 bit/format.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..60933dc 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -5,10 +5,11 @@ from bit.crypto import ripemd160_sha256, sha256
 from bit.curve import x_to_y
 
 from bit.utils import int_to_unknown_bytes, hex_to_bytes, script_push
-from bit.base32 import bech32_decode
+from bit.base32 import bech32_decode, decode as segwit_decode
 from bit.constants import (
     BECH32_MAIN_VERSION_SET,
     BECH32_TEST_VERSION_SET,
+    BECH32_VERSION_SET,
     MAIN_PUBKEY_HASH,
     MAIN_SCRIPT_HASH,
     MAIN_PRIVATE_KEY,
@@ -45,7 +46,12 @@ def address_to_public_key_hash(address):
 def get_version(address):
     version, _ = bech32_decode(address)
     if version is None:
-        version = b58decode_check(address)[:1]
+        payload = b58decode_check(address)
+        if len(payload) != 21:
+            raise ValueError('{} is an invalid length for an address payload.'.format(len(payload)))
+        version = payload[:1]
+    elif version in BECH32_VERSION_SET and segwit_decode(address) == (None, None):
+        raise ValueError('{} is not a valid segwit address.'.format(address))
     if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
         return 'main'
     elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
-- 
2.43.0


From fb78d0f5c0740d4b088a51d1caae80e835055252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:36 +0000
Subject: [PATCH 14/25] fix: fall back to a random draw when there are too many
 coins to search for a match

---
 bit/transaction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 8172d79..6c04bcf 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -301,9 +301,12 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
 
     if not consolidate and not absolute_fee:
         # Trying to find a perfect match using Branch-and-Bound:
-        selected_coins = branch_and_bound(
-            d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
-        )
+        try:
+            selected_coins = branch_and_bound(
+                d=0, selected_coins=[], effective_value=0, target=target, fee=fee, sorted_unspents=sorted_unspents
+            )
+        except RecursionError:  # Too many unspents for an exhaustive search
+            selected_coins = []
         remaining = 0
 
     # Fallback: If no match, Single Random Draw with return address:
-- 
2.43.0


From 40cc2e80eef57dac6623ba93f39f8189352db471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:27 +0000
Subject: [PATCH 15/25] fix: refuse a multisig contract that requires no
 signature

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 60933dc..a103c58 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -149,6 +149,9 @@ def multisig_to_redeemscript(public_keys, m):
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     redeemscript = int_to_unknown_bytes(m + 80)
 
     for key in public_keys:
-- 
2.43.0


From 48056fc4bd7979d7f8862a179a963ecf72aa5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:18 +0000
Subject: [PATCH 16/25] fix: list unconfirmed testnet transactions from
 Blockstream

---
 bit/network/services.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c8e1ad3..63514be 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -396,10 +396,27 @@ class BlockstreamAPI:
 
     @classmethod
     def get_transactions_testnet(cls, address):
+        #! Blockstream returns at most 50 mempool (unconfirmed) transactions and ignores the rest
+        mempool_endpoint = cls.TEST_ADDRESS_API + '/txs/mempool'
+
         endpoint = cls.TEST_ADDRESS_API + '/txs/chain/{}'
 
         transactions = []
 
+        # Add mempool (unconfirmed) transactions
+        r = requests.get(mempool_endpoint.format(address), timeout=DEFAULT_TIMEOUT)
+        if r.status_code == 400:  # pragma: no cover
+            return []
+        elif r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
+        response = r.json()
+        unconfirmed = [tx['txid'] for tx in response]
+
+        # It is safer to raise exception if API returns exactly 50 unconfirmed
+        # transactions, as there could be more that the API is unaware of.
+        if len(unconfirmed) == 50:  # pragma: no cover
+            raise ExcessiveAddress
+
         r = requests.get(endpoint.format(address, ''), timeout=DEFAULT_TIMEOUT)
         if r.status_code == 400:  # pragma: no cover
             return []
@@ -407,7 +424,7 @@ class BlockstreamAPI:
             raise ConnectionError
         response = r.json()
 
-        # The first 50 mempool and 25 confirmed transactions are shown with no
+        # The first 25 confirmed transactions are shown with no
         # indication of the number of total transactions.
         total_txs = len(response)
 
@@ -420,6 +437,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
+        transactions.extend(unconfirmed)
+
         return transactions
 
     @classmethod
-- 
2.43.0


From 6b8d3c99af50676b727ce724db1084efb14db7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:18 +0000
Subject: [PATCH 17/25] fix: Blockstream testnet signals an address with too
 many unspents

---
 bit/network/services.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 63514be..33e9171 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -501,7 +501,10 @@ class BlockstreamAPI:
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 400:  # pragma: no cover
+        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
+        if r.status_code == 400 and r.text == "Too many history entries":
+            raise ExcessiveAddress
+        elif r.status_code == 400:  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From 80a45cc87835785b51dec75f2a087adc7d440468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:46 +0000
Subject: [PATCH 18/25] fix: never round a converted amount up

---
 bit/network/rates.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..93d1234 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from decimal import ROUND_DOWN
+from decimal import Context, ROUND_DOWN
 from functools import wraps
 from time import time
 
@@ -14,6 +14,9 @@ DEFAULT_CACHE_TIME = 60
 # rates when given in terms of 1 BTC.
 ONE = Decimal(1)
 
+# Amounts must never be rounded up, however many digits they are given with.
+TRUNCATE = Context(prec=28, rounding=ROUND_DOWN)
+
 SUPPORTED_CURRENCIES = OrderedDict(
     [
         ('satoshi', 'Satoshi'),
@@ -592,7 +595,7 @@ def currency_to_satoshi(amount, currency):
     :rtype: ``int``
     """
     satoshis = EXCHANGE_RATES[currency]()
-    return int(satoshis * Decimal(amount))
+    return int(TRUNCATE.multiply(satoshis, Decimal(amount)))
 
 
 class CachedRate:
@@ -618,7 +621,7 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return int(TRUNCATE.multiply(cached_rate.satoshis, Decimal(amount)))
 
     return wrapper
 
-- 
2.43.0


From 8a5f7fbfb41b7198a84d9ec731cb187cf282c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:42 +0000
Subject: [PATCH 19/25] fix: creating a transaction does not remove coins from
 the caller's list or the wallet's record

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 6c04bcf..f5a0fc3 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -429,7 +429,7 @@ def sanitize_tx_data(
     sum_outputs = sum(out[1] for out in outputs)
 
     # Use Branch-and-Bound for coin selection:
-    unspents[:], remaining = select_coins(
+    unspents, remaining = select_coins(
         sum_outputs,
         fee,
         output_size,
-- 
2.43.0


From 03b5b5897abafb3cac345ee63da762615b5ced09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:42 +0000
Subject: [PATCH 20/25] fix: opting one payment in to replace-by-fee does not
 alter the caller's coins

---
 bit/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index f5a0fc3..2d08392 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from collections import namedtuple
 from itertools import islice
 import math
@@ -440,6 +441,8 @@ def sanitize_tx_data(
     )
 
     if replace_by_fee:
+        # The caller's coins are left as they are.
+        unspents = [copy(unspent) for unspent in unspents]
         for unspent in unspents:
             unspent.opt_in_for_RBF()
 
-- 
2.43.0


From 66edbd58937eb613c6c49ae9c99bd16f211eca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:57 +0000
Subject: [PATCH 21/25] fix: a coin's script is recognised as the wallet's own
 however its hex digits are written

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 04ec145..b2aaa48 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -208,9 +208,9 @@ class PrivateKey(BaseKey):
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def to_wif(self):
         return bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())
@@ -607,9 +607,9 @@ class PrivateKeyTestnet(BaseKey):
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def to_wif(self):
         return bytes_to_wif(self._pk.secret, version=self.version, compressed=self.is_compressed())
@@ -1035,9 +1035,9 @@ class MultiSig:
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def sign(self, data):  # pragma: no cover
         """Signs some data which can be verified later by others using
@@ -1360,9 +1360,9 @@ class MultiSigTestnet:
         script = bytes_to_hex(address_to_scriptpubkey(self.address))
         if self.segwit_address:
             segwit_script = bytes_to_hex(address_to_scriptpubkey(self.segwit_address))
-            return unspent.script == script or unspent.script == segwit_script
+            return unspent.script.lower() in (script, segwit_script)
         else:
-            return unspent.script == script
+            return unspent.script.lower() == script
 
     def sign(self, data):  # pragma: no cover
         """Signs some data which can be verified later by others using
-- 
2.43.0


From d94c601d10e1b84c13ec6b327549ec7dd203295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:57 +0000
Subject: [PATCH 22/25] fix: a multisig contract's keys are decoded before they
 are compared and sorted

---
 bit/wallet.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index b2aaa48..2b413fc 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -978,20 +978,21 @@ class MultiSig:
         if private_key.instance != 'PrivateKey':
             raise TypeError('MultiSig only accepts a PrivateKey class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
-            raise ValueError('Private key does not match any provided public key.')
-
         if type(public_keys) not in (list, set):
             raise TypeError('The public keys must be provided in a list or set.')
 
+        # Decode before comparing and sorting: a key has more than one encoding.
+        decoded_keys = [k if type(k) == bytes else hex_to_bytes(k) for k in public_keys]
+
+        if private_key.public_key not in decoded_keys:
+            raise ValueError('Private key does not match any provided public key.')
+
         self.version = 'main'
         self.instance = 'MultiSig'
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        self.public_keys = sorted(set(decoded_keys)) if type(public_keys) == set else decoded_keys
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
@@ -1303,20 +1304,21 @@ class MultiSigTestnet:
         if private_key.instance != 'PrivateKeyTestnet':
             raise TypeError('MultiSigTesnet only accepts PrivateKeyTestnet class to assign a private key.')
 
-        if bytes_to_hex(private_key.public_key) not in public_keys and private_key.public_key not in public_keys:
-            raise ValueError('Private key does not match any provided public key.')
-
         if type(public_keys) not in (list, set):
             raise TypeError('The public keys must be provided in a list or set.')
 
+        # Decode before comparing and sorting: a key has more than one encoding.
+        decoded_keys = [k if type(k) == bytes else hex_to_bytes(k) for k in public_keys]
+
+        if private_key.public_key not in decoded_keys:
+            raise ValueError('Private key does not match any provided public key.')
+
         self.version = 'test'
         self.instance = 'MultiSigTestnet'
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
-        self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        self.public_keys = sorted(set(decoded_keys)) if type(public_keys) == set else decoded_keys
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
-- 
2.43.0


From 77c01cf2619ebb3920815096ed0d6c7cacdc2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:00 +0000
Subject: [PATCH 23/25] fix: a node's user name and password may contain any
 character

---
 bit/network/services.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 33e9171..6c2452f 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,6 +1,7 @@
 import requests
 import json
 import logging
+from urllib.parse import quote
 
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
@@ -20,7 +21,12 @@ class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
         self._url = "http{s}://{user}:{password}@{host}:{port}/{path}".format(
-            s="s" if use_https else "", user=user, password=password, host=host, port=port, path=path
+            s="s" if use_https else "",
+            user=quote(user, safe=""),
+            password=quote(password, safe=""),
+            host=host,
+            port=port,
+            path=path,
         )
         self._headers = {"content-type": "application/json"}
         self._session.verify = use_https
-- 
2.43.0


From c38ebb496655085cb49ec1a252049a8894aa84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 24/25] fix: a fee of zero is a fee, not a request for advice

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 2b413fc..f3242d8 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -321,7 +321,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or mark_unspents(NetworkAPI.get_unspent(address), address, compressed),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -722,7 +722,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -856,7 +856,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or mark_unspents(NetworkAPI.get_unspent_testnet(address), address, compressed),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1161,7 +1161,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1230,7 +1230,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1492,7 +1492,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1561,7 +1561,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent_testnet(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
-- 
2.43.0


From a177d1c96c03ab6111fb7e76c679e7bbf4e0b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 25/25] fix: refuse data that is not exactly one serialized
 transaction

---
 bit/transaction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 2d08392..28e8279 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -341,6 +341,7 @@ def deserialize(tx):
     if isinstance(tx, str) and re.match('^[0-9a-fA-F]*$', tx):
         return deserialize(hex_to_bytes(tx))
 
+    original = tx
     segwit_tx = TxObj.is_segwit(tx)
 
     version, tx = read_bytes(tx, 4)
@@ -378,6 +379,10 @@ def deserialize(tx):
 
     txobj = TxObj(version, inputs, outputs, locktime)
 
+    # Incomplete, trailing or non-canonically encoded data must not be dropped silently:
+    if len(locktime) != 4 or bytes(txobj) != original:
+        raise ValueError('The given data is not exactly one serialized transaction.')
+
     return txobj
 
 
-- 
2.43.0

