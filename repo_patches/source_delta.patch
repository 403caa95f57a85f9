From dc3b9afbf84f964d0efc01c621032576cf817d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 01/34] fix: address.Validate refuses padded and line-broken
 text instead of accepting it or crashing

---
 pkg/address/address_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..243ad6e 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,10 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// the decoder ignores line breaks and allows padding; an address has neither
+	if len(h) != AddrLength*5/8 {
+		return emptyA(), newError("not a valid address encoding")
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From d583036fc196beb7f760001ed31f254c3f8a0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 02/34] fix: Address.UnmarshalText stores the canonical
 lower-case address

---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..7e8becd 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From 9d23d5ba87df30ec894f5cc1e1f2af23e572afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 03/34] fix: ExtendedKey.Zero forgets the memoized public key

A key read into a receiver which had memoized its public key kept the old,
zeroed public key bytes: PubKeyBytes returned 33 zero bytes and children were
derived from them.
---
 pkg/key/extendedkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..212e1be 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -516,6 +516,7 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From 68c15c25569079e5856b1dcbf2d5415b232e42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 04/34] fix: converted and neutered keys do not share memory
 with their source

Public, AsSignatureKey and FromSignatureKey handed out the source key's own
slices, so zeroing one key destroyed the other.
---
 pkg/key/extendedkey.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 212e1be..c889de3 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -389,7 +389,10 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	//
+	// The new key gets its own copies, so that clearing one of the two keys
+	// does not destroy the other.
+	return NewExtendedKey(clone(k.PubKeyBytes()), clone(k.chainCode), clone(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -506,6 +509,11 @@ func zero(b []byte) {
 	}
 }
 
+// clone copies a slice, so that two keys do not share memory.
+func clone(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 // Zero manually clears all fields and bytes in the extended key.  This can be
 // used to explicitly clear key material from memory for enhanced security
 // against memory scraping.  This function only clears this particular key and
@@ -570,8 +578,8 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
-	err = k.parseExtra(key.ExtraBytes())
+	k.key = clone(key.KeyBytes())
+	err = k.parseExtra(clone(key.ExtraBytes()))
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
 	}
@@ -591,11 +599,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From d6faaed3cc4b4334360a26077845e5de2c646c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 05/34] fix: HardenedChild refuses indices which wrap to a
 non-hardened child

---
 pkg/key/extendedkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index c889de3..454e2b2 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -402,6 +402,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		return nil, errors.Wrap(ErrInvalidChild, "hardened child index out of range")
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From 6ec1f89b8c542c819f43d0e144910a6724737181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 06/34] fix: derivation paths with a hardened index of 2^31 or
 more are malformed

---
 pkg/key/path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/key/path.go b/pkg/key/path.go
index 8a11e89..b6eda1e 100644
--- a/pkg/key/path.go
+++ b/pkg/key/path.go
@@ -54,6 +54,9 @@ func newPath(s string) (path, error) {
 		}
 		p[i].id = uint32(n)
 		p[i].harden = saa[i][2] == "'"
+		if p[i].harden && p[i].id >= HardenedKeyStart {
+			return nil, errors.New("hardened path index out of range")
+		}
 	}
 	return p, nil
 }
-- 
2.43.0


From 52406408da1df5b83bd9c6156a01b219aecddd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 07/34] fix: CheckChecksum accepts only the checksum width
 AddChecksum writes

A leading byte above 28 crashed it, and one below 3 let data with a shorter
checksum, or with none at all, pass.
---
 pkg/signature/checksum.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..3201ae9 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -85,6 +85,10 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 		return nil, false
 	}
 	message = checked[1:end]
+	// only the width which AddChecksum chooses for this message is valid
+	if n != checksumWidth(len(message)) {
+		return message, false
+	}
 
 	sumActual := checked[end:]
 	sumExpect := cksumN(message, n)
-- 
2.43.0


From 4ec1dba2dcad2ad91fd3b5c7f39f91447c31dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 08/34] fix: keys and signatures of an unknown algorithm are an
 error, not a crash

---
 pkg/signature/algorithm.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..6ad40e1 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -11,6 +11,7 @@ package signature
 
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -95,7 +96,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	original, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, fmt.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(original), container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +109,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	original, known := idMap[container.Algorithm]
+	if !known {
+		return nil, nil, nil, fmt.Errorf("unknown algorithm id %d", container.Algorithm)
+	}
+	return cloneAl(original), container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
-- 
2.43.0


From d235a621118f9d99bd39e3f12494a25c464aecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 09/34] fix: Signature.Unmarshal no longer crashes on malformed
 data, UnmarshalMsg checks the length

---
 pkg/signature/signature.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..0505ad3 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,9 +64,11 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
-	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
-		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
+	if err == nil {
+		ss := al.SignatureSize()
+		if ss >= 0 && len(b) != ss {
+			err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+		}
 	}
 	if err == nil {
 		signature.algorithm = al
@@ -94,6 +96,12 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err == nil {
+		ss := al.SignatureSize()
+		if ss >= 0 && len(b) != ss {
+			err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+		}
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From 1f351bc2234e4953a428d6dc839a3052c953660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 10/34] fix: key text shorter than the prefix is an error, not
 a crash

---
 pkg/signature/private_key.go | 3 +++
 pkg/signature/public_key.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..0779d7e 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,6 +124,9 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
 	}
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..aa8a83c 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,6 +136,9 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
 	}
-- 
2.43.0


From ac65c623ddd8b8731763aea4f4c5568f83a4721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 11/34] fix: reading a key without contents does not keep the
 receiver's old contents

A used receiver became a key of the new algorithm with the old key's bytes.
---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..b1043e2 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,8 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		key.key = []byte{}
+		key.extra = []byte{}
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From b409e8566acd8288179edde94097756162f0c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 12/34] fix: Msgsize of keys counts the length byte and the
 extra data

---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 2 +-
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index b1043e2..50bf094 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 0779d7e..ec82481 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index aa8a83c..ca92ee2 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From c005db23119d048db1656674b5e634c87f59af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 13/34] fix: an unset signature counts as a null signature
 instead of crashing verification

---
 pkg/signature/public_key.go | 2 +-
 pkg/signature/signature.go  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index ca92ee2..c561420 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -83,7 +83,7 @@ func (key PublicKey) Size() int {
 
 // Verify the supplied message with the given signature
 func (key PublicKey) Verify(message []byte, sig Signature) bool {
-	if NameOf(key.Algorithm()) != NameOf(sig.algorithm) {
+	if NameOf(key.Algorithm()) != NameOf(sig.Algorithm()) {
 		return false
 	}
 	return key.Algorithm().Verify(key.key, message, sig.data)
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 0505ad3..274e2d9 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -31,6 +31,10 @@ type Signature struct {
 
 // Algorithm gets the signature's algorithm
 func (signature Signature) Algorithm() Algorithm {
+	// an unset signature is a null signature, as for keys
+	if signature.algorithm == nil {
+		return Null
+	}
 	return signature.algorithm
 }
 
@@ -52,7 +56,7 @@ func RawSignature(al Algorithm, data []byte) (*Signature, error) {
 
 // Size returns the size of this signature
 func (signature Signature) Size() int {
-	return signature.algorithm.SignatureSize()
+	return signature.Algorithm().SignatureSize()
 }
 
 // Marshal marshals the signature into a serialized binary format
-- 
2.43.0


From e4b4f22e5923962dfadbc5e04f84d921c8b38c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 14/34] fix: RegisterAlgorithm handles pointer types and keeps
 one number per algorithm

Algorithms registered as pointers could not be serialized, and one registered
under a second number was serialized under either of the two at random.
---
 pkg/signature/id_map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..9fc35a5 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -53,6 +53,9 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 			return fmt.Errorf("ID %d already in use by %s", id, existingName)
 		}
 	}
+	if other, exists := idNameMap[NameOf(al)]; exists && other != id {
+		return fmt.Errorf("%s already registered with ID %d", NameOf(al), other)
+	}
 
 	idMap[id] = al
 	buildNameMap()
@@ -65,7 +68,7 @@ func buildNameMap() {
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		idNameMap[NameOf(example)] = id
 	}
 }
 
-- 
2.43.0


From 35f16c0464959d54eb0096bf33e6a94fbfafd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 15/34] fix: words.ToBytes accepts only lists FromBytes can
 produce

It crashed on an empty list, accepted lists with fewer than four checksum bits
(and so wrong words unnoticed), and returned six zero bytes as five.
---
 pkg/words/words.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..c2497c0 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -198,6 +198,10 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// if a shorter version (with a longer crc) is possible, test it first
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
+		// only lengths for which FromBytes produces this number of words count
+		if rb < 0 || nextMultipleOf(rb*8+4, 11) != nbits {
+			continue
+		}
 		runlen := nbits - rb*8
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
-- 
2.43.0


From cc6b82c5518e87f3e7b0ea139acd5c86a6c60052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 16/34] fix: a key refused for its extra data does not leave
 its key bytes behind

---
 pkg/key/extendedkey.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 454e2b2..ac5c4be 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -584,6 +584,8 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	k.key = clone(key.KeyBytes())
 	err = k.parseExtra(clone(key.ExtraBytes()))
 	if err != nil {
+		// do not leave a key without its chain code behind
+		k.Zero()
 		return errors.Wrap(err, "could not parse extra")
 	}
 	return
-- 
2.43.0


From 659234a35ef72f61eced6e419a3c20b20c0504e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 17/34] fix: a wasm call without any arguments is reported
 instead of ending the module

---
 cmd/keyaddr/helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..b8e0074 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -24,12 +24,12 @@ import (
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
 	// check that callback is a function
-	cb := args[len(args)-1]
-	if cb.Type() != js.TypeFunction {
+	if len(args) == 0 || args[len(args)-1].Type() != js.TypeFunction {
 		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
 		dispatchError(msg)
 		return js.Value{}, []js.Value{}, errors.New(msg)
 	}
+	cb := args[len(args)-1]
 
 	// check argument length
 	// The expression below (expected+1) makes this check ignore the callback
-- 
2.43.0


From 78e9536145a312313f8f8c8beabce544aeac63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 18/34] fix: wasm wordsFromPrefix refuses a limit which is not
 a number instead of ending the module

---
 cmd/keyaddr/handlers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..c916fbb 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -151,6 +151,10 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
 		max := remainder[2].Int()
 
 		// do work
-- 
2.43.0


From 86b0bf67e33ec5ace60afbf0717f72b070779870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 19/34] fix: LnInt boundaries above 2^51 are the exact powers
 of e

---
 pkg/unsigned/log.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..9734f40 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -23,15 +23,18 @@ func init() {
 	// ...     i += 1
 	// ...
 	// True
+	//
+	// Entries which exceed the precision of a float there were
+	// recomputed with exact rational arithmetic.
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From 8e944a36bddb245ab76b450a98a04889e6d0e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 20/34] fix: ExpFrac computes fractions near 1 and refuses
 large denominators instead of wrapping or dividing by zero

---
 pkg/signed/exp.go   | 17 +++++++++++++----
 pkg/unsigned/exp.go | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..0b36ffc 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	if denominator > (math.MaxInt64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator || numerator < 0 || denominator < 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -65,8 +65,17 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if product/i < fact {
+			// this term and all that follow are less than one, and
+			// going on would overflow the factorial
+			break
+		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if sum > math.MaxInt64-rounder/2-term {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..27e7433 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	if denominator > (math.MaxUint64/2)/rounder {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -65,8 +65,17 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if product/i < fact {
+			// this term and all that follow are less than one, and
+			// going on would overflow the factorial
+			break
+		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if sum > math.MaxUint64-rounder/2-term {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
-- 
2.43.0


From 14dbfdf2441393c9e5b08c353096b7978f8afbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 21/34] fix: print the sign of amounts between -1 and 0 ndau,
 and the least amount

---
 pkg/types/ndau.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..13b6f9d 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,19 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
+	// the magnitude of the least int64 only fits in a uint64
+	na := uint64(n)
 	if n < 0 {
-		sign = -1
+		sign = "-"
+		na = -na
 	}
-	na := n.Abs()
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return sign + strconv.FormatUint(ndau, 10)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From 5ae7c7319c750b4e33312f480f6ad72d91c765fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 22/34] fix: refuse ndau texts which are too large instead of
 wrapping

---
 pkg/types/ndau.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index 13b6f9d..183235d 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -131,6 +131,9 @@ func ParseNdau(s string) (Ndau, error) {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
+	if whole > gomath.MaxInt64/constants.NapuPerNdau {
+		return 0, errors.New("parsing ndau: amount too large")
+	}
 	out := Ndau(whole) * constants.NapuPerNdau
 
 	fracs, ok := result["frac"]
@@ -148,7 +151,10 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		out, err = out.Add(Ndau(frac))
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing ndau")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From f3dca90c4a005540fc0bf96ad4f9eba7fbcff95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 23/34] fix: print the least duration

---
 pkg/types/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..f66756b 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -110,17 +110,18 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// the magnitude of the least int64 only fits in a uint64
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From d408492bd8cd6600a9c7ecd8ed55044994b9f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 24/34] fix: refuse duration texts which are too large instead
 of wrapping

---
 pkg/types/duration.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index f66756b..60c17d1 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -67,14 +67,22 @@ func ParseDuration(s string) (Duration, error) {
 		}
 	}
 
-	duration := Duration(0)
+	// the magnitude is limited to what a Duration can hold
+	magnitude := uint64(0)
+	limit := uint64(constants.MaxDuration)
+	if result["neg"] != "" {
+		limit++
+	}
 	addTime := func(name string, unit uint64) error {
 		if result[name] != "" {
 			value, err := strconv.ParseUint(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			if value > (limit-magnitude)/unit {
+				return errors.New("duration too large")
+			}
+			magnitude += value * unit
 		}
 		return nil
 	}
@@ -102,10 +110,10 @@ func ParseDuration(s string) (Duration, error) {
 	}
 
 	if result["neg"] != "" {
-		duration = -duration
+		magnitude = -magnitude
 	}
 
-	return duration, nil
+	return Duration(magnitude), nil
 }
 
 // String represents a Duration as a human-readable string
-- 
2.43.0


From 1b6b8e3403785c1e24050bffba2e65f0d456f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 25/34] fix: convert timestamps more than 290 years after the
 epoch

---
 pkg/types/timestamp.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/types/timestamp.go b/pkg/types/timestamp.go
index 83ff2fa..9012456 100644
--- a/pkg/types/timestamp.go
+++ b/pkg/types/timestamp.go
@@ -51,22 +51,23 @@ func ParseTimestamp(s string) (Timestamp, error) {
 
 // TimestampFrom creates a Timestamp given a time.Time object
 func TimestampFrom(t time.Time) (Timestamp, error) {
-	// because this uses the standard library, it will overflow
-	// some 290 years after the epoch
-	//
-	// TODO: implement this in a way which ensures its monotonic properties
-	durationSinceEpoch := t.Sub(constants.Epoch)
-	if durationSinceEpoch < 0 {
+	if t.Before(constants.Epoch) {
 		return Timestamp(0), errors.New("date is before Epoch start")
 	}
-	return Timestamp(int64(durationSinceEpoch / time.Microsecond)), nil
+	// a time.Duration would only reach some 290 years after the epoch
+	seconds := t.Unix() - constants.Epoch.Unix()
+	micros := int64(t.Nanosecond()) / int64(time.Microsecond)
+	if seconds > (constants.MaxTimestamp-micros)/Second {
+		return Timestamp(0), errors.New("date is too far in the future")
+	}
+	return Timestamp(seconds*Second + micros), nil
 }
 
 // AsTime converts a Timestamp into a time.Time object
-//
-// TODO: implement this in a way which ensures its monotonic properties
 func (t Timestamp) AsTime() time.Time {
-	return constants.Epoch.Add(time.Duration(int64(t)) * time.Microsecond)
+	// a time.Duration would only reach some 290 years after the epoch
+	micros := int64(t) % Second
+	return time.Unix(constants.Epoch.Unix()+int64(t)/Second, micros*int64(time.Microsecond)).UTC()
 }
 
 // Compare implements comparison for Timestamp.
-- 
2.43.0


From 253af334567d7636f2218d5bc5b622ba355d36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 26/34] fix: convert percentages above 18446744 to rates

---
 pkg/eai/rate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..db8c37f 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -131,7 +131,7 @@ func ParseRate(s string) (Rate, error) {
 //
 // i.e. to express 1%, `nPercent` should equal `1`
 func RateFromPercent(nPercent uint64) Rate {
-	return Rate(nPercent * constants.RateDenominator / 100)
+	return Rate(nPercent * (constants.RateDenominator / 100))
 }
 
 //msgp:tuple RTRow
-- 
2.43.0


From 264ecd2a0055cd1f2d9c1befe575d9f5df60ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 27/34] fix: refuse rate texts which are too large instead of
 wrapping

---
 pkg/eai/rate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index db8c37f..68c1ea9 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -104,6 +104,9 @@ func ParseRate(s string) (Rate, error) {
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
+	if pct > uint64(gomath.MaxInt64/RateFromPercent(1)) {
+		return Rate(0), errors.New("parsing pct: rate too large")
+	}
 	out := RateFromPercent(1) * Rate(pct)
 
 	fracs, ok := result["frac"]
@@ -121,6 +124,9 @@ func ParseRate(s string) (Rate, error) {
 		if err != nil {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
+		if frac > uint64(gomath.MaxInt64-out) {
+			return Rate(0), errors.New("parsing frac: rate too large")
+		}
 		out += Rate(frac)
 	}
 
-- 
2.43.0


From a79a16ba89b46e5334be20579eb2eea95ba49c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 28/34] fix: report EAI which is too large instead of a
 negative amount

---
 pkg/eai/eai.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..4879a44 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -12,6 +12,7 @@ package eai
 
 import (
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -63,6 +64,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > constants.MaxQuantaPerAddress {
+		return 0, ndauerr.ErrOverflow
+	}
 	return math.Ndau(eai), nil
 }
 
-- 
2.43.0


From 2a5950437844db15bad7a0c52671df6f78ddc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 29/34] fix: price a purchase which starts inside a block by
 what is left of the block

---
 pkg/pricecurve/pricecurve.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fc3c328..56672da 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -94,10 +94,7 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 	var totalPrice float64
 	for {
 		var price = ApproxPriceAtUnit(alreadySold)
-		var availableInThisBlock = alreadySold % numPerBlock
-		if availableInThisBlock == 0 {
-			availableInThisBlock = numPerBlock
-		}
+		var availableInThisBlock = numPerBlock - alreadySold%numPerBlock
 
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
-- 
2.43.0


From 6349d7ba3a4eba10c8a6a7590613b2269c16dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 30/34] fix: count parts of an ndau in the price of a purchase

---
 pkg/pricecurve/pricecurve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index 56672da..21e2d1e 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -99,14 +99,14 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
 		if numNdau <= availableInThisBlock {
-			totalPrice += price * float64(numNdau/constants.QuantaPerUnit)
+			totalPrice += price * float64(numNdau) / constants.QuantaPerUnit
 			return totalPrice
 		}
 
 		// otherwise, buy the remainder of this block and loop
 		numNdau -= availableInThisBlock
 		alreadySold += availableInThisBlock
-		totalPrice += price * float64(availableInThisBlock/constants.QuantaPerUnit)
+		totalPrice += price * float64(availableInThisBlock) / constants.QuantaPerUnit
 	}
 }
 
-- 
2.43.0


From 4343c05b276bce0632b18debd59c8cc99a20efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 31/34] fix: refuse dollar texts which are too large instead of
 wrapping

---
 pkg/pricecurve/nanocent.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..1589ab5 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -12,6 +12,7 @@ package pricecurve
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -81,12 +82,20 @@ func ParseDollars(dollars string) (Nanocent, error) {
 	}
 
 	// add it all up
-	nc := Nanocent(d*Dollar + c)
+	magnitude := uint64(c)
+	limit := uint64(math.MaxInt64)
+	if submatches["neg"] == "-" {
+		limit++
+	}
+	if uint64(d) > (limit-magnitude)/Dollar {
+		return 0, fmt.Errorf("'%s' is too large", dollars)
+	}
+	magnitude += uint64(d) * Dollar
 
 	// handle negatives
 	if submatches["neg"] == "-" {
-		nc = -nc
+		magnitude = -magnitude
 	}
 
-	return nc, err
+	return Nanocent(magnitude), err
 }
-- 
2.43.0


From 54067cadeb9fd44261f6bb6528ba79ddb3a07afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 32/34] fix: b32.Decode ignored up to four characters after the
 padding

---
 pkg/b32/b32.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/b32/b32.go b/pkg/b32/b32.go
index 5d5499c..07f3246 100644
--- a/pkg/b32/b32.go
+++ b/pkg/b32/b32.go
@@ -35,5 +35,11 @@ func Encode(b []byte) string {
 // Decode converts a string back to a byte stream; case is insignificant.
 func Decode(s string) ([]byte, error) {
 	enc := base32.NewEncoding(NdauAlphabet)
-	return enc.DecodeString(strings.ToLower(s))
+	s = strings.ToLower(s)
+	// the decoder does not look at what follows the padding, so make sure
+	// that nothing does
+	if n := len(s) - strings.Count(s, "\n") - strings.Count(s, "\r"); n%8 != 0 {
+		return nil, base32.CorruptInputError(len(s))
+	}
+	return enc.DecodeString(s)
 }
-- 
2.43.0


From 85007e393e6bf35194279c33550a210df167266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 33/34] fix: a wasm error handler which throws or is gone does
 not end the module

---
 cmd/keyaddr/helpers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index b8e0074..b7e71db 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -45,6 +45,12 @@ func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Va
 
 // dispatchError passes an error message to the javascript overrideable error handler.
 func dispatchError(msg string) {
+	defer func() {
+		// the handler may throw, or not be a function any more
+		if recover() != nil {
+			errorHandler(js.Undefined(), []js.Value{js.ValueOf(msg)})
+		}
+	}()
 	js.Global().Call("KeyaddrErrorHandler", msg)
 }
 
-- 
2.43.0


From 009379f0f3b33407400aa5f2c769c6c7532defbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 34/34] fix: a wasm callback which throws is reported instead
 of ending the module

---
 cmd/keyaddr/handlers.go | 13 +++++++++++++
 cmd/keyaddr/helpers.go  | 12 ++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index c916fbb..48b6d63 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -22,6 +22,7 @@ import (
 // exit will quit the go program, causing the application to no longer respond to function calls.
 func exit(this js.Value, args []js.Value) interface{} {
 	go func() {
+		defer reportThrown("exit")
 		logInfo("keyaddr exiting...")
 
 		// clean args
@@ -48,6 +49,7 @@ func errorHandler(this js.Value, args []js.Value) interface{} {
 // JS Usage: newKey(recoveryBytes, cb)
 func newKey(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("newKey")
 		logDebug("newKey")
 
 		// clean args
@@ -76,6 +78,7 @@ func newKey(this js.Value, args []js.Value) interface{} {
 // language defaults to en if not specified.
 func wordsToBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("wordsToBytes")
 		logDebug("wordsToBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsToBytes")
@@ -113,6 +116,7 @@ func wordsToBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: deriveFrom(parentKey, parentPath, childPath, cb)
 func deriveFrom(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("deriveFrom")
 		logDebug("deriveFrom")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "deriveFrom")
@@ -142,6 +146,7 @@ func deriveFrom(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromPrefix(lang, prefix, max, cb)
 func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("wordsFromPrefix")
 		logDebug("wordsFromPrefix")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "wordsFromPrefix")
@@ -171,6 +176,7 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 // JS Usage: isPrivate(key, cb)
 func isPrivate(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("isPrivate")
 		logDebug("isPrivate")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "isPrivate")
@@ -201,6 +207,7 @@ func isPrivate(this js.Value, args []js.Value) interface{} {
 // JS Usage: fromString(key, cb)
 func fromString(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("fromString")
 		logDebug("fromString")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "fromString")
@@ -232,6 +239,7 @@ func fromString(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromBytes(lang, base64bytes, cb)
 func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("wordsFromBytes")
 		logDebug("wordsFromBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsFromBytes")
@@ -260,6 +268,7 @@ func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: ndauAddress(privateKey, cb)
 func ndauAddress(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("ndauAddress")
 		logDebug("ndauAddress")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "ndauAddress")
@@ -288,6 +297,7 @@ func ndauAddress(this js.Value, args []js.Value) interface{} {
 // JS Usage: toPublic(privateKey, cb)
 func toPublic(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("toPublic")
 		logDebug("toPublic")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "toPublic")
@@ -318,6 +328,7 @@ func toPublic(this js.Value, args []js.Value) interface{} {
 // JS Usage: child(privateKey, n, cb)
 func child(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("child")
 		logDebug("child")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "child")
@@ -360,6 +371,7 @@ func child(this js.Value, args []js.Value) interface{} {
 // JS Usage: sign(privateKey, base64Message, cb)
 func sign(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("sign")
 		logDebug("sign")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "sign")
@@ -391,6 +403,7 @@ func sign(this js.Value, args []js.Value) interface{} {
 // JS Usage: hardenedChild(privateKey, n, cb)
 func hardenedChild(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer reportThrown("hardenedChild")
 		logDebug("hardenedChild")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "hardenedChild")
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index b7e71db..6eb4b2e 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -54,6 +54,18 @@ func dispatchError(msg string) {
 	js.Global().Call("KeyaddrErrorHandler", msg)
 }
 
+// reportThrown is deferred by the handlers. A callback which throws must not
+// end the module. What it threw is not repeated, as it may hold a secret.
+func reportThrown(source string) {
+	switch r := recover().(type) {
+	case nil:
+	case js.Error:
+		dispatchError(fmt.Sprintf("the callback of %s threw an error", source))
+	default:
+		panic(r)
+	}
+}
+
 // LogEntry represents a log message for json marshalling.
 type LogEntry struct {
 	Level     string `json:"lvl"`
-- 
2.43.0

