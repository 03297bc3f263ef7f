From 9d6b1c8415503ed9e15c7428abffb77d8d9e0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 01/49] fix: do not share the key's id slice with the message
 enriched with it

---
 cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 124cdc1..e1626e2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -537,7 +537,7 @@ func (m *Message) EnrichWithKey() error {
 	// Mark key as used.
 	designatedKey.Used = true
 	// Enrich message instance with key id.
-	m.KeyId = designatedKey.Id
+	m.KeyId = RuneCopy(&designatedKey.Id)
 	return nil
 }
 
-- 
2.43.0


From 038178b1977639da2e779beb91baa85d2df51ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/49] fix: return an error instead of panicking on characters
 outside the tables

---
 cipher.go    | 4 ++--
 krypto431.go | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index e1626e2..526a0ef 100644
--- a/cipher.go
+++ b/cipher.go
@@ -304,8 +304,8 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// zero the copy of rune
 	c = 0
 	if !foundIt {
-		// enter binary mode
-		panic("binary mode not implemented yet")
+		// enter binary mode (not implemented yet)
+		return fmt.Errorf("%w: %q", ErrUnsupportedChar, *input)
 	}
 
 	return nil
diff --git a/krypto431.go b/krypto431.go
index 5aad0fd..6199b6d 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -66,6 +66,7 @@ var (
 	ErrKeyColumnsTooShort = errors.New("key column width less than group size")
 	ErrFormatting         = errors.New("formatting error")
 	ErrNotCipherText      = errors.New("plaintext not identified as ciphertext")
+	ErrUnsupportedChar    = errors.New("character not supported by the character tables (binary mode not implemented yet)")
 )
 
 var (
-- 
2.43.0


From 99628ff9f629703e099261f572d86fa3ffb6447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/49] fix: refuse letters that would be deciphered as another
 letter

---
 cipher.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cipher.go b/cipher.go
index 526a0ef..53b9855 100644
--- a/cipher.go
+++ b/cipher.go
@@ -277,6 +277,16 @@ func (state *codecState) encodeCharacter(input *rune, output *[]rune) error {
 	// find character in one of the tables
 	c := *input
 	toUpper(&c, &c)
+	if c != *input {
+		// Letters that do not survive the round-trip through their upper case (for
+		// example dotless i or long s) would silently become another letter.
+		l := c
+		toLower(&l, &l)
+		if l != *input {
+			return fmt.Errorf("%w: %q", ErrUnsupportedChar, *input)
+		}
+		l = 0
+	}
 	foundIt := false
 	for t := range CharacterTables {
 		for i, tc := range CharacterTables[t] {
-- 
2.43.0


From 538c488bde6b50a0ed697a9b0496e063aaf81aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 04/49] fix: never choose a compromised key when enciphering

---
 cipher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher.go b/cipher.go
index 53b9855..2db9397 100644
--- a/cipher.go
+++ b/cipher.go
@@ -434,14 +434,14 @@ func (t *Message) Decode() error {
 }
 */
 
-// FindKey returns the first un-used key of the configured group size where all
+// FindKey returns the first un-used and un-compromised key of the configured group size where all
 // recipients are keepers of that key. If the recipient slice is empty, it will
 // find the first un-used anonymous key (a key without any keepers). Function
 // returns a pointer to the key. FindKey will not mark the key as used.
 func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	numberOfRecipients := len(recipients)
 	for i := range r.Keys {
-		if r.Keys[i].Used {
+		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
 		if len(r.Keys[i].Id) != r.GroupSize {
-- 
2.43.0


From 7272c50647452c2b739c62f3119d2ad08f038662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 05/49] fix: mark a key named by the user as used when
 enciphering with it

---
 cipher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cipher.go b/cipher.go
index 2db9397..ce5c879 100644
--- a/cipher.go
+++ b/cipher.go
@@ -580,6 +580,8 @@ func (m *Message) Encipher() error {
 		return err
 	}
 	chunk.key = keyPtr
+	// A key named by the user has not been marked used yet...
+	keyPtr.Used = true
 	// If something fails, we need to release all keys we have used.
 	releaseKeys := true
 	defer func() {
-- 
2.43.0


From 4dcf71e8fe47644a39867289484a264cfc0564e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/49] fix: take the optional key id from the second argument
 of NewTextMessage

---
 messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 93237f4..76a7ee5 100644
--- a/messages.go
+++ b/messages.go
@@ -137,7 +137,7 @@ func (k *Krypto431) NewTextMessage(msg ...string) (*Message, error) {
 		// Outgoing message...
 		//fmt.Fprintln(os.Stderr, "outgoing")
 		if len(msg) >= 2 {
-			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[2])))
+			message.KeyId = []rune(strings.ToUpper(strings.TrimSpace(msg[1])))
 			if len(message.KeyId) != k.GroupSize {
 				return nil, fmt.Errorf("key id \"%s\" must be %d characters long (the configured group size)", string(message.KeyId), k.GroupSize)
 			}
-- 
2.43.0


From 877eed932007adf4d44a1e00afb4e122d68871cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/49] fix: leave room for the key change when a character
 takes several letters

---
 cipher.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/cipher.go b/cipher.go
index ce5c879..24c6bd1 100644
--- a/cipher.go
+++ b/cipher.go
@@ -596,26 +596,50 @@ func (m *Message) Encipher() error {
 			chunk.Wipe()
 		}
 	}()
+	// nextChunk ends the current chunk with a key change and starts a new one.
+	nextChunk := func() error {
+		keyPtr := m.instance.FindKey(m.Recipients...)
+		if keyPtr == nil {
+			return ErrOutOfKeys
+		}
+		err := state.changeKey(keyPtr, &chunk.encodedText)
+		if err != nil {
+			return err
+		}
+		keyPtr.Used = true
+		chunks = append(chunks, chunk)
+		chunk = newChunk(m.instance.GroupSize)
+		chunk.key = keyPtr
+		state.reset()
+		return nil
+	}
 	for i := range m.PlainText {
 		if state.charCounter >= chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
-			keyPtr := m.instance.FindKey(m.Recipients...)
-			if keyPtr == nil {
-				return ErrOutOfKeys
-			}
-			err := state.changeKey(keyPtr, &chunk.encodedText)
+			err := nextChunk()
 			if err != nil {
 				return err
 			}
-			keyPtr.Used = true
-			chunks = append(chunks, chunk)
-			chunk = newChunk(m.instance.GroupSize)
-			chunk.key = keyPtr
-			state.reset()
 		}
+		stateBefore, lengthBefore := *state, len(chunk.encodedText)
 		err := state.encodeCharacter(&m.PlainText[i], &chunk.encodedText)
 		if err != nil {
 			return err
 		}
+		if i < len(m.PlainText)-1 && lengthBefore > 0 &&
+			state.charCounter > chunk.key.KeyLength()-m.instance.GroupSize-ControlCharactersNeededToChangeKey {
+			// A character can take more than one letter (table and case changes). This
+			// one leaves no room for the key change, move it to the next chunk.
+			*state = stateBefore
+			chunk.encodedText = chunk.encodedText[:lengthBefore]
+			err := nextChunk()
+			if err != nil {
+				return err
+			}
+			err = state.encodeCharacter(&m.PlainText[i], &chunk.encodedText)
+			if err != nil {
+				return err
+			}
+		}
 	}
 	// Count length of all chunks and make sure the last chunk compensates for
 	// modulo GroupSize length of all EncodedTexts.
-- 
2.43.0


From 3859ac54a03bb63c4ca0cdfe734c1af651b2b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 08/49] fix: do not leave partial cipher text in a message that
 failed to encipher

---
 cipher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cipher.go b/cipher.go
index 24c6bd1..78926b2 100644
--- a/cipher.go
+++ b/cipher.go
@@ -588,6 +588,7 @@ func (m *Message) Encipher() error {
 		if releaseKeys {
 			m.instance.MarkKeyUsed(m.KeyId, false)
 			Wipe(&m.KeyId)
+			Wipe(&m.CipherText)
 			chunk.key.Used = false
 			for i := range chunks {
 				chunks[i].key.Used = false
-- 
2.43.0


From 7ff9915aaac60df6591e0e0adcc5fd0279bd89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 09/49] fix: return an error instead of panicking when the key
 index is past the key

---
 diana/diana.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diana/diana.go b/diana/diana.go
index 244f5c9..1088184 100644
--- a/diana/diana.go
+++ b/diana/diana.go
@@ -132,7 +132,7 @@ func AppendTrigraphByteByKey(writeTo *[]byte, character *byte, key *[]byte, keyI
 	if *keyIndex < 0 {
 		return ErrNegativeKeyIndex
 	}
-	if *keyIndex > len(*writeTo) {
+	if *keyIndex > len(*writeTo) || *keyIndex >= len(*key) {
 		return ErrKeyIndexOutOfBounds
 	}
 	var b byte
-- 
2.43.0


From ed8f280ca479fe176b1c212a01c3045b185bc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 10/49] fix: do not write padding into shared rune slices when
 listing

---
 functions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 8588ce5..ef263af 100644
--- a/functions.go
+++ b/functions.go
@@ -379,7 +379,9 @@ func padding(s []rune, fieldLength int) (spaces []rune) {
 }
 
 func withPadding(s []rune, fieldLength int) []rune {
-	return append(s, padding(s, fieldLength)...)
+	// Do not append to s itself, its backing array may be shared (NilRunes,
+	// Message.Id, etc).
+	return append(RuneCopy(&s), padding(s, fieldLength)...)
 }
 
 // Maximum int in int slice. Alternative MaxInt function.
-- 
2.43.0


From 9e892b3ac3349204d2f1e526bd4cc0ffa9ca341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 11/49] fix: ColumnSizes panicked with fewer headers than
 columns

---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index ef263af..82f1319 100644
--- a/functions.go
+++ b/functions.go
@@ -266,7 +266,7 @@ func ColumnSizes(rs [][][]rune, headerFields ...string) (columnSizes []int) {
 	for item := range rs {
 		for col := range rs[item] {
 			ilen := len(rs[item][col])
-			if len(headerFields) >= col {
+			if len(headerFields) > col {
 				hlen := len(headerFields[col])
 				if hlen > ilen {
 					ilen = hlen
-- 
2.43.0


From 7aff59aa3244f7bf56ba7c365dcb8c21d531b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 12/49] fix: RemoveKeeper left duplicates of the removed keeper
 behind

---
 keys.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index aab5542..4140788 100644
--- a/keys.go
+++ b/keys.go
@@ -154,11 +154,10 @@ func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 // chained.
 func (k *Key) RemoveKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
-		for i := range k.Keepers {
+		for i := len(k.Keepers) - 1; i >= 0; i-- {
 			if EqualRunesFold(&keeper, &k.Keepers[i]) {
 				k.Keepers[i] = k.Keepers[len(k.Keepers)-1]
 				k.Keepers = k.Keepers[:len(k.Keepers)-1]
-				break
 			}
 		}
 	}
-- 
2.43.0


From c8a8c4a3e61b0971d4a16ab9044d315e905579c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 13/49] fix: RemoveRecipient left duplicates of the removed
 recipient behind

---
 messages.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/messages.go b/messages.go
index 76a7ee5..df85723 100644
--- a/messages.go
+++ b/messages.go
@@ -303,11 +303,10 @@ func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 // chained.
 func (m *Message) RemoveRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
-		for i := range m.Recipients {
+		for i := len(m.Recipients) - 1; i >= 0; i-- {
 			if EqualRunesFold(&recipient, &m.Recipients[i]) {
 				m.Recipients[i] = m.Recipients[len(m.Recipients)-1]
 				m.Recipients = m.Recipients[:len(m.Recipients)-1]
-				break
 			}
 		}
 	}
-- 
2.43.0


From edf69de39091c38ce25b8c698a117bc0ab54ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 14/49] fix: do not share the caller's call-sign slice between
 keys and messages

---
 keys.go     | 2 +-
 messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 4140788..e20c898 100644
--- a/keys.go
+++ b/keys.go
@@ -144,7 +144,7 @@ func (k *Krypto431) GenerateKeys(n int, expire *string, keepers ...string) error
 func (k *Key) AddKeeper(keepers ...[]rune) *Key {
 	for _, keeper := range keepers {
 		if !k.ContainsKeeper(keeper) {
-			k.Keepers = append(k.Keepers, keeper)
+			k.Keepers = append(k.Keepers, RuneCopy(&keeper))
 		}
 	}
 	return k
diff --git a/messages.go b/messages.go
index df85723..425a1d7 100644
--- a/messages.go
+++ b/messages.go
@@ -293,7 +293,7 @@ func (k *Krypto431) NewUniqueMessageId() []rune {
 func (m *Message) AddRecipient(recipients ...[]rune) *Message {
 	for _, recipient := range recipients {
 		if !m.ContainsRecipient(recipient) {
-			m.Recipients = append(m.Recipients, recipient)
+			m.Recipients = append(m.Recipients, RuneCopy(&recipient))
 		}
 	}
 	return m
-- 
2.43.0


From 93199fdb462cd642df7d06a945c14ff6552a5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 15/49] fix: Save and Load panicked when the persistence key
 was wiped or empty

---
 persistence.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 62564c5..5157b02 100644
--- a/persistence.go
+++ b/persistence.go
@@ -362,7 +362,7 @@ func (k *Krypto431) Save() error {
 		}
 	}
 	// Ask for password if instance key is empty and mode is interactive, fail otherwise.
-	if k.persistenceKey == nil {
+	if k.persistenceKey == nil || len(*k.persistenceKey) == 0 {
 		if k.interactive && IsTerminal() {
 			pwd, err := AskAndConfirmPassword(EncryptionPrompt, MinimumPasswordEntropyBits)
 			if err != nil {
@@ -426,7 +426,7 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	// Persistence file exists, ask for password if instance key is empty.
-	if k.persistenceKey == nil {
+	if k.persistenceKey == nil || len(*k.persistenceKey) == 0 {
 		if k.interactive && IsTerminal() {
 			pwd := AskForPassword(DecryptionPrompt, 0)
 			if pwd == nil {
-- 
2.43.0


From c9d2e3a8c1bbf22d6fbe2fe8889c4eb28f63c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 16/49] fix: ExportKeys shared key memory, wiping the export
 destroyed the keys

---
 persistence.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistence.go b/persistence.go
index 5157b02..31001ca 100644
--- a/persistence.go
+++ b/persistence.go
@@ -508,7 +508,15 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 	}
 	for i := range k.Keys {
 		if filterFunction(&k.Keys[i]) {
+			// Copy all slices, the exported instance is usually wiped after use...
 			newKey := k.Keys[i]
+			newKey.Id = RuneCopy(&k.Keys[i].Id)
+			newKey.Runes = RuneCopy(&k.Keys[i].Runes)
+			newKey.Comment = RuneCopy(&k.Keys[i].Comment)
+			newKey.Keepers = make([][]rune, len(k.Keys[i].Keepers))
+			for x := range k.Keys[i].Keepers {
+				newKey.Keepers[x] = RuneCopy(&k.Keys[i].Keepers[x])
+			}
 			newKey.instance = &n
 			n.Keys = append(n.Keys, newKey)
 		}
-- 
2.43.0


From a2f88d157e6c3ba2b6f1588a27d26d7c867b9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 17/49] fix: ImportKeys wiped the importing instance's own PFK
 and salt

---
 persistence.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/persistence.go b/persistence.go
index 31001ca..6026488 100644
--- a/persistence.go
+++ b/persistence.go
@@ -546,6 +546,14 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	// The incoming instance is wiped below, do not let it share our own PFK or
+	// salt (e.g WithPFK(k.GetPFK()) and WithSalt(k.GetSalt())).
+	if incoming.persistenceKey != nil {
+		incoming.persistenceKey = BytePtr(ByteCopy(incoming.persistenceKey))
+	}
+	if incoming.salt != nil {
+		incoming.salt = BytePtr(ByteCopy(incoming.salt))
+	}
 	fmt.Fprintf(os.Stderr, "Importing keys from %s"+LineBreak, incoming.GetPersistence())
 
 	err := incoming.Load()
-- 
2.43.0


From 5c16ec3952feda95491a550a4d3647df60235f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 18/49] fix: ImportKeys ignored the
 WithOverwriteExistingKeysOnImport option

---
 persistence.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/persistence.go b/persistence.go
index 6026488..cfce7ae 100644
--- a/persistence.go
+++ b/persistence.go
@@ -546,6 +546,7 @@ func (k *Krypto431) ExportKeys(filterFunction func(key *Key) bool, opts ...Optio
 func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Option) (int, error) {
 	keyCount := 0
 	incoming := New(opts...)
+	overwriteExistingKeys := k.overwriteExistingKeysOnImport || incoming.overwriteExistingKeysOnImport
 	// The incoming instance is wiped below, do not let it share our own PFK or
 	// salt (e.g WithPFK(k.GetPFK()) and WithSalt(k.GetSalt())).
 	if incoming.persistenceKey != nil {
@@ -568,7 +569,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 		}
 		if filterFunction(&incoming.Keys[i]) {
 			if k.ContainsKeyId(&incoming.Keys[i].Id) {
-				if !k.overwriteExistingKeysOnImport && k.interactive && IsTerminal() {
+				if !overwriteExistingKeys && k.interactive && IsTerminal() {
 					overwrite := false
 					prompt := &survey.Confirm{
 						Message: fmt.Sprintf("Key ID %s already exist, replace with imported key?", string(incoming.Keys[i].Id)),
@@ -580,7 +581,7 @@ func (k *Krypto431) ImportKeys(filterFunction func(key *Key) bool, opts ...Optio
 					if !overwrite {
 						continue
 					}
-				} else if !k.overwriteExistingKeysOnImport {
+				} else if !overwriteExistingKeys {
 					fmt.Fprintf(os.Stderr, "Key ID %s already exist, will not import.", string(incoming.Keys[i].Id))
 					continue
 				}
-- 
2.43.0


From 3d6772d17acfc8be7c5e0e294cf62e05771bb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 19/49] fix: Load merged the file into data already in the
 instance

---
 persistence.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index cfce7ae..a03423b 100644
--- a/persistence.go
+++ b/persistence.go
@@ -461,10 +461,20 @@ func (k *Krypto431) Load() error {
 	}
 	defer fgz.Close()
 	gobDecoder := gob.NewDecoder(fgz)
-	err = gobDecoder.Decode(k)
+	// Decode into an empty instance. Decoding directly into k would merge with
+	// and reuse the memory of whatever is already there (gob omits zero values).
+	var loaded Krypto431
+	err = gobDecoder.Decode(&loaded)
 	if err != nil {
 		return err
 	}
+	k.GroupSize = loaded.GroupSize
+	k.KeyLength = loaded.KeyLength
+	k.Columns = loaded.Columns
+	k.KeyColumns = loaded.KeyColumns
+	k.Keys = loaded.Keys
+	k.Messages = loaded.Messages
+	k.CallSign = loaded.CallSign
 	// Fix all non-exported instance fields in keys and messages...
 	for i := range k.Keys {
 		k.Keys[i].instance = k
-- 
2.43.0


From 0e8a52ba892edbc65055c5323811c76f943e8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 20/49] fix: Load did not verify the checksum at the end of the
 file

---
 persistence.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/persistence.go b/persistence.go
index a03423b..e378f74 100644
--- a/persistence.go
+++ b/persistence.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"log"
 	"os"
@@ -44,6 +45,7 @@ var (
 	ErrInvalidPFK     = errors.New("persistence file key is invalid, must be 32 bytes long")
 	ErrPasswordInput  = errors.New("password input error")
 	ErrCopyKeyFailure = errors.New("copy key failure")
+	ErrTrailingData   = errors.New("persistence file has unexpected data after the end")
 )
 
 // DerivePFKFromPassword uses PBKDF2 to produce the 32 byte long key used to
@@ -468,6 +470,15 @@ func (k *Krypto431) Load() error {
 	if err != nil {
 		return err
 	}
+	// Read until the end of the file for the gzip checksum and length to be
+	// verified, each encrypted record is only authenticated by itself.
+	n, err := io.Copy(io.Discard, fgz)
+	if err != nil {
+		return err
+	}
+	if n != 0 {
+		return ErrTrailingData
+	}
 	k.GroupSize = loaded.GroupSize
 	k.KeyLength = loaded.KeyLength
 	k.Columns = loaded.Columns
-- 
2.43.0


From 82a8ca11ca99a3f41b43fdd7624165ec5052449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 21/49] fix: wipe with zeroes when the random source fails

---
 krypto431.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 6199b6d..8cfb413 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -196,10 +196,7 @@ func RandomWipe(b *[]rune) error {
 	}
 	written, err := crand.ReadRunes(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
-		ZeroWipe(b)
+		return ZeroWipe(b)
 	}
 	*b = nil
 	return nil
@@ -243,10 +240,7 @@ func RandomWipeBytes(b *[]byte) error {
 	}
 	written, err := crand.Read(*b)
 	if err != nil || written != len(*b) {
-		if err != nil {
-			return err
-		}
-		ZeroWipeBytes(b)
+		return ZeroWipeBytes(b)
 	}
 	*b = nil
 	return nil
-- 
2.43.0


From 0c37125f46fb622d31e6cebbb7f86efc4a91389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 22/49] fix: wipe the raw radiogram and binary content of a
 message

---
 krypto431.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/krypto431.go b/krypto431.go
index 8cfb413..053124b 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -353,6 +353,9 @@ func (m *Message) RandomWipe() {
 		}
 	}
 	m.CipherText = nil
+	// wipe Radiogram and Binary (may contain the plain text)
+	RandomWipe(&m.Radiogram)
+	RandomWipeBytes(&m.Binary)
 	// wipe KeyId
 	written, err = crand.ReadRunes(m.KeyId)
 	if err != nil || written != len(m.KeyId) {
@@ -376,6 +379,9 @@ func (m *Message) ZeroWipe() {
 		m.CipherText[i] = 0
 	}
 	m.CipherText = nil
+	// wipe Radiogram and Binary (may contain the plain text)
+	ZeroWipe(&m.Radiogram)
+	ZeroWipeBytes(&m.Binary)
 	// wipe KeyId
 	for i := 0; i < len(m.KeyId); i++ {
 		m.KeyId[i] = 0
-- 
2.43.0


From 263069a7d4c07860df0d80cd3794e34af803eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 23/49] fix: Save lost the existing store on failure and
 ignored write errors

---
 persistence.go | 66 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 5 deletions(-)

diff --git a/persistence.go b/persistence.go
index e378f74..a1297ab 100644
--- a/persistence.go
+++ b/persistence.go
@@ -378,11 +378,55 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
-	// Create persistence file if it does not exist or truncate it if it does exist.
-	f, err := os.OpenFile(k.persistence, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	return k.replacePersistence()
+}
+
+// replacePersistence writes the instance to a temporary file next to the
+// persistence file and renames it when complete. The existing persistence file
+// is left untouched if anything fails (no space left on device, crash, etc).
+// Something that is not a regular file (e.g a device) is written to directly.
+func (k *Krypto431) replacePersistence() error {
+	filename := k.persistence
+	mode := fs.FileMode(0600)
+	fi, err := os.Stat(filename)
+	if err == nil {
+		if !fi.Mode().IsRegular() {
+			f, err := os.OpenFile(filename, os.O_TRUNC|os.O_WRONLY, 0600)
+			if err != nil {
+				return err
+			}
+			return k.writePersistence(f)
+		}
+		mode = fi.Mode().Perm()
+		// If persistence is a symbolic link, replace what it points to.
+		filename, err = filepath.EvalSymlinks(filename)
+		if err != nil {
+			return err
+		}
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	f, err := os.CreateTemp(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	if err != nil {
+		return err
+	}
+	err = k.writePersistence(f)
+	if err == nil {
+		err = os.Chmod(f.Name(), mode)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
 	if err != nil {
+		os.Remove(f.Name())
 		return err
 	}
+	return nil
+}
+
+// writePersistence encrypts, compresses and writes the instance to f, flushes
+// it to disk and closes f.
+func (k *Krypto431) writePersistence(f *os.File) error {
 	defer f.Close()
 	// Krypto431 persistence files are encrypted, gzipped GOB files.
 	encrypter, err := stream.NewEncryptedStream(f, &stream.Config{
@@ -393,15 +437,27 @@ func (k *Krypto431) Save() error {
 	if err != nil {
 		return err
 	}
-	defer encrypter.Close()
 	fgz := gzip.NewWriter(encrypter)
-	defer fgz.Close()
 	gobEncoder := gob.NewEncoder(fgz)
 	err = gobEncoder.Encode(k)
 	if err != nil {
 		return err
 	}
-	return nil
+	err = fgz.Close()
+	if err != nil {
+		return err
+	}
+	fi, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if fi.Mode().IsRegular() {
+		err = f.Sync()
+		if err != nil {
+			return err
+		}
+	}
+	return f.Close()
 }
 
 // Krypto431_Load() loads a Krypto431 instance from the configured persistence
-- 
2.43.0


From 9a939f7bfe86f10187957f01df97ba4594d20dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 24/49] fix: create PDF print-outs readable by the owner only,
 as the text files

---
 print.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 1b80dd3..42d7d2e 100644
--- a/print.go
+++ b/print.go
@@ -272,7 +272,11 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	// page...
 	pdf.AddPage()
 	pdf.MultiCell(0, 3, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	return pdf.OutputAndClose(f)
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -315,5 +319,9 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	// than maxRows...
 	pdf.AddPage()
 	pdf.MultiCell(0, 4, page, "", "", false)
-	return pdf.OutputFileAndClose(filename)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0600)
+	if err != nil {
+		return err
+	}
+	return pdf.OutputAndClose(f)
 }
-- 
2.43.0


From b4f8bd9113db86df5e7b1c4eb6ff733db28d7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 25/49] fix: the --invalid flag selected valid keys instead of
 invalid ones

---
 cmd/krypto431/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 0f46c73..fef4bda 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -63,7 +63,7 @@ func keys(c *cli.Context) error {
 			}
 		}
 		if o.invalid {
-			if key.Compromised || key.IsExpired() {
+			if !key.Compromised && !key.IsExpired() {
 				return false
 			}
 		}
-- 
2.43.0


From a5d90f5db4a72f8fd538b7bb98bb3629cf02460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 26/49] fix: save the used keys before showing the cipher text
 of a new message

---
 cmd/krypto431/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 1be8a18..6585e62 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -132,11 +132,12 @@ func messages(c *cli.Context) error {
 		if err != nil {
 			return err
 		}
-		fmt.Println(msg.String())
+		// Save before showing the cipher text, its keys must never be used again.
 		err = k.Save()
 		if err != nil {
 			return err
 		}
+		fmt.Println(msg.String())
 		eprintf("Saved message %s in %s."+LineBreak, msg.IdString(), k.GetPersistence())
 	}
 
-- 
2.43.0


From aa849fed492614505d93aba54a84b547989d071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 27/49] fix: initialize created a store without call-sign when
 it was invalid

---
 cmd/krypto431/initialize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/initialize.go b/cmd/krypto431/initialize.go
index 2385650..d424ca7 100644
--- a/cmd/krypto431/initialize.go
+++ b/cmd/krypto431/initialize.go
@@ -162,7 +162,12 @@ func initialize(c *cli.Context) error {
 	)
 	defer k.Wipe()
 
-	err := setSaltAndPFK(c, &k)
+	err := k.SetCallSign(o.call)
+	if err != nil {
+		return err
+	}
+
+	err = setSaltAndPFK(c, &k)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8dc0fc0b732e98bc934c821769a68ece7cfaf7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 28/49] fix: save messages deciphered and keys used while
 listing messages

---
 cmd/krypto431/messages.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 6585e62..5ea6e40 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -149,7 +149,15 @@ func messages(c *cli.Context) error {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
 			return nil
 		}
+		undeciphered := messagesWithoutKey(&k)
 		header, lines := k.SummaryOfMessages(filterFunction)
+		if messagesWithoutKey(&k) != undeciphered {
+			// Listing deciphered one or more messages, their keys are now used.
+			err = k.Save()
+			if err != nil {
+				return err
+			}
+		}
 		if len(lines) == 0 {
 			plural := ""
 			if messages > 1 {
@@ -198,3 +206,12 @@ func messages(c *cli.Context) error {
 	}
 	return nil
 }
+
+func messagesWithoutKey(k *krypto431.Krypto431) (n int) {
+	for i := range k.Messages {
+		if len(k.Messages[i].KeyId) == 0 {
+			n++
+		}
+	}
+	return
+}
-- 
2.43.0


From 38f81f1f206fb666d82a07b87cc54c129a38da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 29/49] fix: key cards cut off the keepers and the key id when
 there are many keepers

---
 print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/print.go b/print.go
index 42d7d2e..b879f38 100644
--- a/print.go
+++ b/print.go
@@ -74,6 +74,8 @@ func (k *Key) String() string {
 	}
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
 		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+	// The key id and the header share one line, make room for all keepers.
+	cols = HighestInt(cols, len(k.Id)+1+utf8.RuneCountInString(header))
 
 	// Just because you can...
 	return blox.New().SetColumnsAndRows(cols, rows).Trim().
-- 
2.43.0


From 8a5add130681f360dce345765b4b92a20d4b9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 30/49] fix: message print-outs cut off long lists of
 recipients

---
 print.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/print.go b/print.go
index b879f38..7b96900 100644
--- a/print.go
+++ b/print.go
@@ -112,13 +112,12 @@ func (m *Message) String(width ...int) string {
 	}
 	tDtgKeyLen := blox.MaximumLineLength(templateDtgAndKey)
 	tToFromLen := blox.MaximumLineLength(templateToFrom)
-	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(keyid))
+	minWidth := tDtgKeyLen + tToFromLen + HighestInt(utf8.RuneCountInString(recipientsString), len(m.From), len(keyid))
 	if len(width) > 0 {
-		if width[0] < minWidth {
-			w = minWidth
-		} else {
-			w = width[0]
-		}
+		w = width[0]
+	}
+	if w < minWidth {
+		w = minWidth
 	}
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
-- 
2.43.0


From 4b44396b12ccdebf9728c5569842bb43ddbae819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 31/49] fix: split recipients of a radiogram at any white space

The parser accepts tabs between the call-signs of a radiogram's header, but
they were not split there: "AA<tab>BB DE CC ..." was a message to one
recipient named "AA<tab>BB".
---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 82f1319..0f9b2d3 100644
--- a/functions.go
+++ b/functions.go
@@ -169,7 +169,7 @@ func JoinRunesToString(runes *[][]rune, separator string) string {
 // Key.Keepers.
 func VettedKeepers(keepers ...string) (vettedKeepers [][]rune) {
 	f := func(c rune) bool {
-		return c == ',' || c == ' '
+		return c == ',' || unicode.IsSpace(c)
 	}
 	for i := range keepers {
 		subKeepers := strings.FieldsFunc(keepers[i], f)
-- 
2.43.0


From 64b6c2a0431258dd1dda7a314462c71f6f0ceb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 32/49] fix: accept the months MAJ and OKT of a date-time group

The radiogram expressions allow them, but such a radiogram was refused as the
date-time group could not be parsed.
---
 messages.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messages.go b/messages.go
index 425a1d7..976d463 100644
--- a/messages.go
+++ b/messages.go
@@ -231,6 +231,8 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 				//fmt.Fprintln(os.Stderr, "using time.Now() as message time")
 				m.DTG.Time = time.Now()
 			} else {
+				// The dtg package accepts the Swedish months, but can not parse them.
+				dtgString = strings.NewReplacer("MAJ", "MAY", "OKT", "OCT").Replace(dtgString)
 				var err error
 				m.DTG, err = dtg.Parse(dtgString)
 				if err != nil {
-- 
2.43.0


From 68cb81055651db66378be5548b7402ef1f670315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 33/49] fix: report an error when the user declines to
 overwrite the persistence file

---
 persistence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index a1297ab..83f6354 100644
--- a/persistence.go
+++ b/persistence.go
@@ -356,7 +356,7 @@ func (k *Krypto431) Save() error {
 					return err
 				}
 				if !overwrite {
-					return nil
+					return fmt.Errorf("file %s already exist (not overwritten)", k.persistence)
 				}
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
-- 
2.43.0


From 1deccd2fcd2f580dc8e806413e5833a86a7d78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 34/49] fix: refuse --random together with --new-pfk when
 changing the persistence key

---
 cmd/krypto431/pfk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/krypto431/pfk.go b/cmd/krypto431/pfk.go
index 9ede30b..b57f51d 100644
--- a/cmd/krypto431/pfk.go
+++ b/cmd/krypto431/pfk.go
@@ -54,6 +54,8 @@ func managePFK(c *cli.Context) error {
 
 		if c.IsSet(oRandom) && o.random && c.IsSet(oNew) {
 			return fmt.Errorf("can not use both --%s and --%s, choose one", oRandom, oNew)
+		} else if c.IsSet(oRandom) && o.random && c.IsSet(oNewPFK) {
+			return fmt.Errorf("can not use both --%s and --%s, choose one", oRandom, oNewPFK)
 		} else if c.IsSet(oNewPFK) && c.IsSet(oNew) {
 			return fmt.Errorf("can not use both --%s and --%s, choose one", oNewPFK, oNew)
 		} else if c.IsSet(oRandom) && o.random {
-- 
2.43.0


From 6bca13849321d64a8ba05053c3de50e6f9582f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 35/49] fix: loading a file allows overwriting that file only,
 not any other file set later

---
 krypto431.go   | 1 +
 persistence.go | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 053124b..9d04d9a 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -101,6 +101,7 @@ type Krypto431 struct {
 	persistenceKey                *[]byte
 	salt                          *[]byte
 	overwritePersistenceIfExists  bool
+	loadedPersistence             string // file last loaded, may be overwritten
 	interactive                   bool
 	overwriteExistingKeysOnImport bool
 	GroupSize                     int
diff --git a/persistence.go b/persistence.go
index 83f6354..59d2779 100644
--- a/persistence.go
+++ b/persistence.go
@@ -345,7 +345,7 @@ func (k *Krypto431) Save() error {
 		}
 	} else {
 		// persistence already exists
-		if !k.overwritePersistenceIfExists {
+		if !k.overwritePersistenceIfExists && k.persistence != k.loadedPersistence {
 			if k.interactive && IsTerminal() {
 				overwrite := false
 				prompt := &survey.Confirm{
@@ -549,8 +549,8 @@ func (k *Krypto431) Load() error {
 	for i := range k.Messages {
 		k.Messages[i].instance = k
 	}
-	// Allow overwriting file after it's been loaded...
-	k.overwritePersistenceIfExists = true
+	// Allow overwriting file after it's been loaded (but not some other file)...
+	k.loadedPersistence = k.persistence
 	return nil
 }
 
-- 
2.43.0


From f9c26401f6718bf2662507aa5a3ad3ea961ff9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 36/49] fix: message list columns were not aligned when a
 message has no sender

---
 functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.go b/functions.go
index 0f9b2d3..d25cc16 100644
--- a/functions.go
+++ b/functions.go
@@ -363,6 +363,9 @@ func predictColumnSizesOfMessages(messages []*Message) (columnSizes [5]int) {
 			}
 		}
 		fromLen := len(messages[i].From)
+		if fromLen == 0 {
+			fromLen = len(NilRunes)
+		}
 		if columnSizes[3] < fromLen {
 			columnSizes[3] = fromLen
 		}
-- 
2.43.0


From 7501733aec7f8ee61a77d2b3e760f38e63108460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 37/49] fix: keys --valid with a very large number of days
 selected keys that expire sooner

---
 cmd/krypto431/keys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index fef4bda..6059ac5 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -83,7 +83,9 @@ func keys(c *cli.Context) error {
 			if key.Compromised {
 				return false
 			}
-			if !key.IsValid(time.Duration(o.valid) * 24 * time.Hour) {
+			// Not key.IsValid(), a time.Duration can not hold more than 292 years.
+			secondsLeft := key.Expires.Unix() - time.Now().Unix()
+			if float64(secondsLeft) <= float64(o.valid)*24*60*60 {
 				return false
 			}
 		}
-- 
2.43.0


From a51d1b471a976a350effa1ed3966355a8994d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:40 +0000
Subject: [PATCH 38/49] fix: messages --delete keeps what its list deciphered

The list of messages to choose from deciphers held traffic and shows it. When nothing was then deleted, the store still held the message as undeciphered and its keys as unused, although their text had been shown.
---
 cmd/krypto431/messages.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index 5ea6e40..c2cac06 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -78,7 +78,15 @@ func messages(c *cli.Context) error {
 		}
 		deleted := 0
 		if !o.yes {
+			undeciphered := messagesWithoutKey(&k)
 			_, lines := k.SummaryOfMessages(filterFunction)
+			if messagesWithoutKey(&k) != undeciphered {
+				// Listing deciphered one or more messages, their keys are now used.
+				err = k.Save()
+				if err != nil {
+					return err
+				}
+			}
 			if len(lines) == 0 {
 				plural := ""
 				if messages > 1 {
-- 
2.43.0


From 7e870eef6ed5dddaa599eb78ac282bb4a39490be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 39/49] fix: give each PDF its own copy of the font

---
 print.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index 7b96900..a1adbf9 100644
--- a/print.go
+++ b/print.go
@@ -246,7 +246,8 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 		return nil
 	}
 	pdf := gofpdf.New("P", "mm", "A4", "")
-	pdf.AddUTF8FontFromBytes("LiberationMono", "B", fontLiberationMonoBold)
+	// gofpdf writes into the font it is given, do not let it write into ours.
+	pdf.AddUTF8FontFromBytes("LiberationMono", "B", ByteCopy(&fontLiberationMonoBold))
 	pdf.SetFont("LiberationMono", "B", 8)
 	maxRows := 87
 	rowCount := 0
@@ -292,7 +293,8 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 		return nil
 	}
 	pdf := gofpdf.New("P", "mm", "A4", "")
-	pdf.AddUTF8FontFromBytes("LiberationMono", "B", fontLiberationMonoBold)
+	// gofpdf writes into the font it is given, do not let it write into ours.
+	pdf.AddUTF8FontFromBytes("LiberationMono", "B", ByteCopy(&fontLiberationMonoBold))
 	// A page will hold 97x65
 	pdf.SetFont("LiberationMono", "B", 9)
 	maxRows := 65
-- 
2.43.0


From a65d8707105e4688f3b4cdb3f79dbdca16044142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 40/49] fix: do not share the PFK or salt of an option between
 instances

---
 krypto431.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/krypto431.go b/krypto431.go
index 9d04d9a..ddeda97 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -503,7 +503,8 @@ func WithPFKString(hexEncodedString string) Option {
 		return nilKeyFunc
 	}
 	return func(k *Krypto431) {
-		k.persistenceKey = &key
+		// Not shared between instances, it is wiped with the instance.
+		k.persistenceKey = BytePtr(ByteCopy(&key))
 	}
 }
 
@@ -536,7 +537,8 @@ func WithSaltString(salt string) Option {
 		}
 	}
 	return func(k *Krypto431) {
-		k.salt = &bsalt
+		// Not shared between instances, it is wiped with the instance.
+		k.salt = BytePtr(ByteCopy(&bsalt))
 	}
 }
 
-- 
2.43.0


From a89d1f6fb5775ef3dc56c4f43842428a703faead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:16 +0000
Subject: [PATCH 41/49] fix: never choose a key whose id is not letters

Such a key (imported or damaged) was marked used and stayed so although
nothing could be enciphered with it, and kept later keys from being found.
---
 cipher.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cipher.go b/cipher.go
index 78926b2..802e94d 100644
--- a/cipher.go
+++ b/cipher.go
@@ -444,7 +444,7 @@ func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 		if r.Keys[i].Used || r.Keys[i].Compromised {
 			continue
 		}
-		if len(r.Keys[i].Id) != r.GroupSize {
+		if len(r.Keys[i].Id) != r.GroupSize || !onlyLetters(r.Keys[i].Id) {
 			continue
 		}
 		if numberOfRecipients == 0 {
@@ -465,6 +465,17 @@ func (r *Krypto431) FindKey(recipients ...[]rune) *Key {
 	return nil
 }
 
+// onlyLetters returns true if all characters are between A and Z. No other
+// character can be part of a key change nor be sent as the first group.
+func onlyLetters(id []rune) bool {
+	for i := range id {
+		if id[i] < 'A' || id[i] > 'Z' {
+			return false
+		}
+	}
+	return true
+}
+
 // GetKey() searches for a Key object with an Id of keyId and returns a pointer
 // to this Key or error if not found.
 func (r *Krypto431) GetKey(keyId []rune) (*Key, error) {
-- 
2.43.0


From efad4b2aff336c11be699858d2ea0e60167c65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:48 +0000
Subject: [PATCH 42/49] fix: recognise traffic announcing 10000 groups or more

---
 messages.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/messages.go b/messages.go
index 976d463..3b0f97f 100644
--- a/messages.go
+++ b/messages.go
@@ -68,6 +68,11 @@ DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K
 	//  Group 4 = Message text (will include trailing = K, K, +, etc)
 	MessageRegexpShort *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{0,4})\s*=\s*(.*)`)
 
+	// Same as the short message format, but with a group count of five or more
+	// digits. The text has to be long as well, a short one could be a message of
+	// just a number (e.g DE VJ 12345 = K).
+	MessageRegexpLong *regexp.Regexp = regexp.MustCompile(`(?i)([A-Z0-9/,\s]*)(?:\s+|^)DE\s+([A-Z0-9/]+)\s*([0-9]{6}[A-Z]{0,1}(?:JAN|FEB|MAR|APR|MAY|MAJ|JUN|JUL|AUG|SEP|OCT|OKT|NOV|DEC){0,1}(?:[0-9]{2}){0,1}){0,1}\s*(?:[A-Z]{0,4}\s*[\d]{5,})\s*=\s*(.{100,})`)
+
 	// Even shorter format.
 	//  DE SA6MWA HELLO WORLD
 	//  AB DE ZY 012345 WELL, HELLO THERE = K
@@ -214,7 +219,7 @@ func (k *Krypto431) ParseRadiogram(radiogram string) (*Message, error) {
 		Id:       k.NewUniqueMessageId(),
 	}
 	var matches [][]string
-	regexps := []*regexp.Regexp{MessageRegexpFull, MessageRegexpSemi, MessageRegexpShort, MessageRegexpMini}
+	regexps := []*regexp.Regexp{MessageRegexpFull, MessageRegexpSemi, MessageRegexpShort, MessageRegexpLong, MessageRegexpMini}
 	for _, r := range regexps {
 		matches = r.FindAllStringSubmatch(radiogram, 1)
 		// if len(matches) > 0 {
-- 
2.43.0


From e54c7b0ffaaeb62cf7957dd19af600ed449bd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:09 +0000
Subject: [PATCH 43/49] fix: do not overwrite what another program saved since
 the file was loaded

---
 krypto431.go    |  4 ++-
 lock_unix.go    | 24 ++++++++++++++
 lock_windows.go |  4 +++
 persistence.go  | 88 ++++++++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 111 insertions(+), 9 deletions(-)
 create mode 100644 lock_unix.go
 create mode 100644 lock_windows.go

diff --git a/krypto431.go b/krypto431.go
index ddeda97..6c94468 100644
--- a/krypto431.go
+++ b/krypto431.go
@@ -1,6 +1,7 @@
 package krypto431
 
 import (
+	"crypto/sha256"
 	_ "embed"
 	"encoding/hex"
 	"errors"
@@ -101,7 +102,8 @@ type Krypto431 struct {
 	persistenceKey                *[]byte
 	salt                          *[]byte
 	overwritePersistenceIfExists  bool
-	loadedPersistence             string // file last loaded, may be overwritten
+	loadedPersistence             string            // file last loaded, may be overwritten
+	loadedChecksum                [sha256.Size]byte // of the file last loaded
 	interactive                   bool
 	overwriteExistingKeysOnImport bool
 	GroupSize                     int
diff --git a/lock_unix.go b/lock_unix.go
new file mode 100644
index 0000000..6ec39de
--- /dev/null
+++ b/lock_unix.go
@@ -0,0 +1,24 @@
+//go:build !windows
+
+package krypto431
+
+import (
+	"os"
+	"syscall"
+)
+
+// lockFile waits for others to release a regular file and locks it until unlock
+// is called. Locking is best effort, not all file systems support it.
+func lockFile(filename string) (unlock func()) {
+	fi, err := os.Stat(filename)
+	if err != nil || !fi.Mode().IsRegular() {
+		return func() {}
+	}
+	f, err := os.Open(filename)
+	if err != nil {
+		return func() {}
+	}
+	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX) == syscall.EINTR {
+	}
+	return func() { f.Close() }
+}
diff --git a/lock_windows.go b/lock_windows.go
new file mode 100644
index 0000000..b4bcb21
--- /dev/null
+++ b/lock_windows.go
@@ -0,0 +1,4 @@
+package krypto431
+
+// lockFile does nothing, a file that is open can not be replaced on Windows.
+func lockFile(filename string) (unlock func()) { return func() {} }
diff --git a/persistence.go b/persistence.go
index 59d2779..893bc81 100644
--- a/persistence.go
+++ b/persistence.go
@@ -41,11 +41,12 @@ var (
 	ErrNoSalt       = errors.New(errUnableToDerivePFK + "instance is missing salt")
 	ErrTooShortSalt = errors.New(errUnableToDerivePFK + "salt is too short")
 	//ErrPasswordTooShort = fmt.Errorf(errUnableToDerivePFK+"too short, must be at least %d characters long", MinimumPasswordLength)
-	ErrNilPFK         = errors.New("instance is missing key needed to encrypt or decrypt persistence")
-	ErrInvalidPFK     = errors.New("persistence file key is invalid, must be 32 bytes long")
-	ErrPasswordInput  = errors.New("password input error")
-	ErrCopyKeyFailure = errors.New("copy key failure")
-	ErrTrailingData   = errors.New("persistence file has unexpected data after the end")
+	ErrNilPFK             = errors.New("instance is missing key needed to encrypt or decrypt persistence")
+	ErrInvalidPFK         = errors.New("persistence file key is invalid, must be 32 bytes long")
+	ErrPasswordInput      = errors.New("password input error")
+	ErrCopyKeyFailure     = errors.New("copy key failure")
+	ErrTrailingData       = errors.New("persistence file has unexpected data after the end")
+	ErrPersistenceChanged = errors.New("persistence file was changed by another program since it was loaded")
 )
 
 // DerivePFKFromPassword uses PBKDF2 to produce the 32 byte long key used to
@@ -337,6 +338,7 @@ func (k *Krypto431) Save() error {
 		}
 		k.persistence = filepath.Join(dirname, k.persistence[2:])
 	}
+	overwriteAny := k.overwritePersistenceIfExists
 	_, err := os.Stat(k.persistence)
 	if err != nil {
 		if !errors.Is(err, fs.ErrNotExist) {
@@ -358,6 +360,7 @@ func (k *Krypto431) Save() error {
 				if !overwrite {
 					return fmt.Errorf("file %s already exist (not overwritten)", k.persistence)
 				}
+				overwriteAny = true
 			} else {
 				return fmt.Errorf("file %s already exist (will not overwrite)", k.persistence)
 			}
@@ -378,18 +381,34 @@ func (k *Krypto431) Save() error {
 			return ErrNilPFK
 		}
 	}
-	return k.replacePersistence()
+	return k.replacePersistence(overwriteAny)
 }
 
 // replacePersistence writes the instance to a temporary file next to the
 // persistence file and renames it when complete. The existing persistence file
 // is left untouched if anything fails (no space left on device, crash, etc).
 // Something that is not a regular file (e.g a device) is written to directly.
-func (k *Krypto431) replacePersistence() error {
+// Unless overwriteAny is true, only the file that was loaded is replaced. If
+// another program has saved in the meantime, both may have used the same keys.
+func (k *Krypto431) replacePersistence(overwriteAny bool) error {
 	filename := k.persistence
 	mode := fs.FileMode(0600)
+	exists := false
+	// Others that are about to replace the same file have to wait.
+	unlock := lockFile(filename)
+	defer unlock()
 	fi, err := os.Stat(filename)
 	if err == nil {
+		exists = true
+		if fi.Mode().IsRegular() && !overwriteAny {
+			sum, err := checksum(filename)
+			if err != nil {
+				return err
+			}
+			if sum != k.loadedChecksum {
+				return ErrPersistenceChanged
+			}
+		}
 		if !fi.Mode().IsRegular() {
 			f, err := os.OpenFile(filename, os.O_TRUNC|os.O_WRONLY, 0600)
 			if err != nil {
@@ -414,16 +433,53 @@ func (k *Krypto431) replacePersistence() error {
 	if err == nil {
 		err = os.Chmod(f.Name(), mode)
 	}
+	var sum [sha256.Size]byte
+	if err == nil {
+		sum, err = checksum(f.Name())
+	}
 	if err == nil {
-		err = os.Rename(f.Name(), filename)
+		err = renamePersistence(f.Name(), filename, exists || overwriteAny)
 	}
 	if err != nil {
 		os.Remove(f.Name())
 		return err
 	}
+	if k.persistence == k.loadedPersistence {
+		k.loadedChecksum = sum
+	}
 	return nil
 }
 
+// checksum returns the SHA-256 sum of a file.
+func checksum(filename string) (sum [sha256.Size]byte, err error) {
+	f, err := os.Open(filename)
+	if err != nil {
+		return
+	}
+	defer f.Close()
+	h := sha256.New()
+	_, err = io.Copy(h, f)
+	h.Sum(sum[:0])
+	return
+}
+
+// renamePersistence renames a temporary file. A file that came into existence
+// in the meantime is not replaced unless overwrite is true.
+func renamePersistence(from, to string, overwrite bool) error {
+	if !overwrite {
+		err := os.Link(from, to)
+		if err == nil {
+			os.Remove(from)
+			return nil
+		}
+		if errors.Is(err, fs.ErrExist) {
+			return fmt.Errorf("file %s already exist (will not overwrite)", to)
+		}
+		// No hard links here...
+	}
+	return os.Rename(from, to)
+}
+
 // writePersistence encrypts, compresses and writes the instance to f, flushes
 // it to disk and closes f.
 func (k *Krypto431) writePersistence(f *os.File) error {
@@ -504,6 +560,21 @@ func (k *Krypto431) Load() error {
 		return err
 	}
 	defer f.Close()
+	loadedChecksum := sha256.New()
+	fi, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if fi.Mode().IsRegular() {
+		_, err = io.Copy(loadedChecksum, f)
+		if err != nil {
+			return err
+		}
+		_, err = f.Seek(0, io.SeekStart)
+		if err != nil {
+			return err
+		}
+	}
 	decrypter, err := stream.NewEncryptedStream(f, &stream.Config{
 		Cipher:          stream.NewXSalsa20Poly1305Cipher((*[32]byte)(*k.persistenceKey)),
 		SequentialNonce: false, // The key is the same and will leak if nonce is sequential.
@@ -551,6 +622,7 @@ func (k *Krypto431) Load() error {
 	}
 	// Allow overwriting file after it's been loaded (but not some other file)...
 	k.loadedPersistence = k.persistence
+	loadedChecksum.Sum(k.loadedChecksum[:0])
 	return nil
 }
 
-- 
2.43.0


From 38e7f0207025310daa252d54406fbb30acad83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:09 +0000
Subject: [PATCH 44/49] fix: flush the name of the saved file to disk

---
 persistence.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/persistence.go b/persistence.go
index 893bc81..1403881 100644
--- a/persistence.go
+++ b/persistence.go
@@ -444,6 +444,13 @@ func (k *Krypto431) replacePersistence(overwriteAny bool) error {
 		os.Remove(f.Name())
 		return err
 	}
+	// The new name has to be on disk as well, or the previous file - where keys
+	// used since are un-used - may be back after a power failure. Best effort, not
+	// all systems can flush a directory.
+	if d, err := os.Open(filepath.Dir(filename)); err == nil {
+		d.Sync()
+		d.Close()
+	}
 	if k.persistence == k.loadedPersistence {
 		k.loadedChecksum = sum
 	}
-- 
2.43.0


From cdf9cf79f477e2b2e5bf568babf3b22e4d1c6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:09 +0000
Subject: [PATCH 45/49] fix: print the time right in zones that have no letter

---
 functions.go | 11 +++++++++++
 keys.go      |  4 ++--
 messages.go  |  2 +-
 print.go     |  6 +++---
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/functions.go b/functions.go
index d25cc16..af3c7ab 100644
--- a/functions.go
+++ b/functions.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"unicode"
 
+	"github.com/sa6mwa/dtg"
 	"github.com/sa6mwa/krypto431/crand"
 	"golang.org/x/crypto/ssh/terminal"
 )
@@ -30,6 +31,16 @@ func SetMinimumPasswordEntropyBits(entropy float64) {
 	MinimumPasswordEntropyBits = entropy
 }
 
+// formatDTG returns a Date-Time Group. There are no letters for zones that are
+// not a whole number of hours (at most 12) from UTC, it will be in UTC (Z) if so.
+func formatDTG(d dtg.DTG) string {
+	_, offset := d.Zone()
+	if offset%3600 != 0 || offset < -12*3600 || offset > 12*3600 {
+		d.Time = d.UTC()
+	}
+	return d.String()
+}
+
 // RandomAlnumRunes generates a case-sensitive alpha-numeric string as a rune
 // slice of the length n. Returns a rune slice.
 func RandomAlnumRunes(n int) []rune {
diff --git a/keys.go b/keys.go
index e20c898..5703879 100644
--- a/keys.go
+++ b/keys.go
@@ -316,8 +316,8 @@ func (k *Krypto431) SummaryOfKeys(filter func(key *Key) bool) (header []rune, li
 			columns = append(columns, withPadding([]rune("Anonymous"), predictedColumnSizes[1]+addSpace))
 		}
 		columns = append(columns,
-			withPadding([]rune(kp[i].Created.String()), predictedColumnSizes[2]+addSpace),
-			withPadding([]rune(kp[i].Expires.String()), predictedColumnSizes[3]+addSpace),
+			withPadding([]rune(formatDTG(kp[i].Created)), predictedColumnSizes[2]+addSpace),
+			withPadding([]rune(formatDTG(kp[i].Expires)), predictedColumnSizes[3]+addSpace),
 			withPadding([]rune(kp[i].UsedString()), predictedColumnSizes[4]+addSpace),
 			withPadding([]rune(kp[i].CompromisedString()), predictedColumnSizes[5]+addSpace),
 			withPadding([]rune(kp[i].Comment), predictedColumnSizes[6]+addSpace))
diff --git a/messages.go b/messages.go
index 3b0f97f..4545b10 100644
--- a/messages.go
+++ b/messages.go
@@ -447,7 +447,7 @@ func (k *Krypto431) SummaryOfMessages(filter func(msg *Message) bool) (header []
 		var columns [][]rune
 		columns = append(columns,
 			withPadding(mp[i].Id, predictedColumnSizes[0]+addSpace),
-			withPadding([]rune(mp[i].DTG.String()), predictedColumnSizes[1]+addSpace))
+			withPadding([]rune(formatDTG(mp[i].DTG)), predictedColumnSizes[1]+addSpace))
 		if len(mp[i].Recipients) > 0 {
 			columns = append(columns, withPadding([]rune(mp[i].JoinRecipients(",")), predictedColumnSizes[2]+addSpace))
 		} else {
diff --git a/print.go b/print.go
index a1adbf9..bb94216 100644
--- a/print.go
+++ b/print.go
@@ -73,7 +73,7 @@ func (k *Key) String() string {
 		keepers = k.JoinKeepers(",")
 	}
 	header := fmt.Sprintf("/ KEEPERS: %s / EXPIRES: %s / CREATED: %s / USED: [%s]",
-		keepers, k.Expires, k.Created, k.UsedOrNotString("X", " "))
+		keepers, formatDTG(k.Expires), formatDTG(k.Created), k.UsedOrNotString("X", " "))
 	// The key id and the header share one line, make room for all keepers.
 	cols = HighestInt(cols, len(k.Id)+1+utf8.RuneCountInString(header))
 
@@ -122,7 +122,7 @@ func (m *Message) String(width ...int) string {
 	b := blox.New().SetColumnsAndRows(w, 3).Trim()
 	b.DrawSeparator('_').PushPos().PushPos().PutText(templateDtgAndKey).PopPos().
 		MoveX(tDtgKeyLen).PutText(templateToFrom).PopPos().
-		PutText(m.DTG.String()).MoveX(4).PutText(m.IdString()).
+		PutText(formatDTG(m.DTG)).MoveX(4).PutText(m.IdString()).
 		MoveUp().MoveX(tDtgKeyLen + tToFromLen).
 		PutText(recipientsString).
 		PutText(string(m.From))
@@ -147,7 +147,7 @@ func (m *Message) String(width ...int) string {
 	if utf8.RuneCountInString(wrappedCipherText) > 0 {
 		output += "=CIPHER=" + LineBreak + wrappedCipherText + LineBreak
 		groupCount := len(strings.Fields(wrappedCipherText))
-		traffic := blox.WrapString(strings.TrimSpace(fmt.Sprintf("%s DE %s %s %d = %s = K", m.JoinRecipients(" "), string(m.From), m.DTG.String(), groupCount, groupsPrependedWithKey)), uint(w))
+		traffic := blox.WrapString(strings.TrimSpace(fmt.Sprintf("%s DE %s %s %d = %s = K", m.JoinRecipients(" "), string(m.From), formatDTG(m.DTG), groupCount, groupsPrependedWithKey)), uint(w))
 		output += "=TRAFFIC=EXAMPLE=" + LineBreak + traffic + LineBreak
 	}
 
-- 
2.43.0


From f568fe499342c711e943e4df85f04b106bd26041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:19 +0000
Subject: [PATCH 46/49] fix: report an error of closing a print-out

---
 print.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/print.go b/print.go
index bb94216..accd34d 100644
--- a/print.go
+++ b/print.go
@@ -199,6 +199,15 @@ func (k *Krypto431) MessagesAsText(filter func(msg *Message) bool) string {
 	return output
 }
 
+// closeFile closes a file that was written to. It returns the error of the
+// writing or, what was written may not be in the file, of the closing.
+func closeFile(f *os.File, err error) error {
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
 func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) error {
 	bigStringOfKeys := k.KeysAsText(filter)
 	if bigStringOfKeys == "" {
@@ -208,12 +217,8 @@ func (k *Krypto431) KeysTextFile(filter func(key *Key) bool, filename string) er
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfKeys)
-	if err != nil {
-		return err
-	}
-	return nil
+	return closeFile(f, err)
 }
 
 func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename string) error {
@@ -225,12 +230,8 @@ func (k *Krypto431) MessagesTextFile(filter func(msg *Message) bool, filename st
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = f.WriteString(bigStringOfMessages)
-	if err != nil {
-		return err
-	}
-	return nil
+	return closeFile(f, err)
 }
 
 func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
@@ -278,7 +279,7 @@ func (k *Krypto431) KeysPDF(filter func(key *Key) bool, filename string) error {
 	if err != nil {
 		return err
 	}
-	return pdf.OutputAndClose(f)
+	return closeFile(f, pdf.Output(f))
 }
 
 func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string) error {
@@ -326,5 +327,5 @@ func (k *Krypto431) MessagesPDF(filter func(msg *Message) bool, filename string)
 	if err != nil {
 		return err
 	}
-	return pdf.OutputAndClose(f)
+	return closeFile(f, pdf.Output(f))
 }
-- 
2.43.0


From bbf497a66a6930c62887b363cfe0a28a9f3a0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 47/49] fix: do not change to a random key that can not be
 shown

---
 cmd/krypto431/pfk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/krypto431/pfk.go b/cmd/krypto431/pfk.go
index b57f51d..ca5dbe1 100644
--- a/cmd/krypto431/pfk.go
+++ b/cmd/krypto431/pfk.go
@@ -73,7 +73,11 @@ func managePFK(c *cli.Context) error {
 			if err != nil {
 				return err
 			}
-			fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			// If the new key can not be shown, the file would be lost.
+			_, err = fmt.Printf("New random PFK for %s: %s"+LineBreak, o.change, newPFK)
+			if err != nil {
+				return err
+			}
 			err = k.Save()
 			if err != nil {
 				return err
-- 
2.43.0


From 291c6fe1182f9d0e16c2c96620aaa20bf32204e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 48/49] fix: a delete with nothing to delete does not skip the
 rest of the command

---
 cmd/krypto431/keys.go     | 38 ++++++++++++++++++--------------------
 cmd/krypto431/messages.go | 38 ++++++++++++++++++--------------------
 2 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/cmd/krypto431/keys.go b/cmd/krypto431/keys.go
index 6059ac5..53e818a 100644
--- a/cmd/krypto431/keys.go
+++ b/cmd/krypto431/keys.go
@@ -95,35 +95,33 @@ func keys(c *cli.Context) error {
 	// delete keys
 	if c.IsSet(oDelete) && o.deleteItems {
 		keys := len(k.Keys)
+		deleted := 0
 		if keys == 0 {
 			eprintf("There are no keys in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		deleted := 0
-		if !o.yes {
+		} else if !o.yes {
 			_, lines := k.SummaryOfKeys(filterFunction)
+			var response []string
 			if len(lines) == 0 {
 				plural := ""
 				if keys > 1 {
 					plural = "s"
 				}
 				eprintf("No key out of %d key"+plural+" in %s matched criteria."+LineBreak, keys, k.GetPersistence())
-				return nil
-			}
-			var keyStrings []string
-			for i := range lines {
-				keyStrings = append(keyStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select key(s) to delete",
-				Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
-				Options:  keyStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
+			} else {
+				var keyStrings []string
+				for i := range lines {
+					keyStrings = append(keyStrings, string(lines[i]))
+				}
+				prompt := &survey.MultiSelect{
+					Message:  "Select key(s) to delete",
+					Help:     "Columns are ID, KEEPERS, CREATED, EXPIRES, USED, COMPROMISED and COMMENT",
+					Options:  keyStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
+				if err != nil {
+					return err
+				}
 			}
 			if len(response) > 0 {
 				deleted, err = k.DeleteKeysBySummaryString(response...)
diff --git a/cmd/krypto431/messages.go b/cmd/krypto431/messages.go
index c2cac06..d33f458 100644
--- a/cmd/krypto431/messages.go
+++ b/cmd/krypto431/messages.go
@@ -72,12 +72,10 @@ func messages(c *cli.Context) error {
 	// delete messages
 	if c.IsSet(oDelete) && o.deleteItems {
 		messages := len(k.Messages)
+		deleted := 0
 		if messages == 0 {
 			eprintf("There are no messages in %s."+LineBreak, k.GetPersistence())
-			return nil
-		}
-		deleted := 0
-		if !o.yes {
+		} else if !o.yes {
 			undeciphered := messagesWithoutKey(&k)
 			_, lines := k.SummaryOfMessages(filterFunction)
 			if messagesWithoutKey(&k) != undeciphered {
@@ -87,28 +85,28 @@ func messages(c *cli.Context) error {
 					return err
 				}
 			}
+			var response []string
 			if len(lines) == 0 {
 				plural := ""
 				if messages > 1 {
 					plural = "s"
 				}
 				eprintf("No message out of %d message"+plural+" in %s matched criteria."+LineBreak, messages, k.GetPersistence())
-				return nil
-			}
-			var messageStrings []string
-			for i := range lines {
-				messageStrings = append(messageStrings, string(lines[i]))
-			}
-			var response []string
-			prompt := &survey.MultiSelect{
-				Message:  "Select message(s) to delete",
-				Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
-				Options:  messageStrings,
-				PageSize: 20,
-			}
-			err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
-			if err != nil {
-				return err
+			} else {
+				var messageStrings []string
+				for i := range lines {
+					messageStrings = append(messageStrings, string(lines[i]))
+				}
+				prompt := &survey.MultiSelect{
+					Message:  "Select message(s) to delete",
+					Help:     "Columns are ID, DTG, TO, FROM (DE) and DIGEST",
+					Options:  messageStrings,
+					PageSize: 20,
+				}
+				err := survey.AskOne(prompt, &response, survey.WithKeepFilter(true))
+				if err != nil {
+					return err
+				}
 			}
 			if len(response) > 0 {
 				deleted, err = k.DeleteMessagesBySummaryString(response...)
-- 
2.43.0


From 8492706634805fccdcc2e42d2cb41087a9e971f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:24 +0000
Subject: [PATCH 49/49] fix: save to a file whose name is as long as can be

---
 persistence.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/persistence.go b/persistence.go
index 1403881..cacfaab 100644
--- a/persistence.go
+++ b/persistence.go
@@ -425,7 +425,13 @@ func (k *Krypto431) replacePersistence(overwriteAny bool) error {
 	} else if !errors.Is(err, fs.ErrNotExist) {
 		return err
 	}
-	f, err := os.CreateTemp(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	// The name of the temporary file must not be too long even if filename is as
+	// long as the file system allows.
+	base := filepath.Base(filename)
+	if len(base) > 128 {
+		base = base[:128]
+	}
+	f, err := os.CreateTemp(filepath.Dir(filename), "."+base+".*")
 	if err != nil {
 		return err
 	}
-- 
2.43.0

