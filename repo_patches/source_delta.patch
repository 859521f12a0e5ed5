From 9dee4a58578b78c5674ac7f60716d621b4afa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 01/60] fix: ratchet: deliver empty messages that arrive late

trySavedKeys signalled success with a non-nil message, but an empty
message decrypts to nil.  A delayed empty message had its key deleted and
was then rejected as a duplicate.
---
 ratchet/ratchet.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index 833d87c..3ccc1c0 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -283,10 +283,12 @@ func (r *Ratchet) Encrypt(out, msg []byte) ([]byte, error) {
 	return secretbox.Seal(out, msg, &messageNonce, &messageKey), nil
 }
 
-// trySavedKeys tries to decrypt ciphertext using keys saved for missing messages.
-func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
+// trySavedKeys tries to decrypt ciphertext using keys saved for missing
+// messages.  The returned bool is true if ciphertext was decrypted; note that
+// the message itself may be empty.
+func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, bool, error) {
 	if len(ciphertext) < sealedHeaderSize {
-		return nil, errors.New("ratchet: header too small to be valid")
+		return nil, false, errors.New("ratchet: header too small to be valid")
 	}
 
 	sealedHeader := ciphertext[:sealedHeaderSize]
@@ -308,23 +310,23 @@ func (r *Ratchet) trySavedKeys(ciphertext []byte) ([]byte, error) {
 			// This is a fairly common case: the message key might
 			// not have been saved because it's the next message
 			// key.
-			return nil, nil
+			return nil, false, nil
 		}
 
 		sealedMessage := ciphertext[sealedHeaderSize:]
 		copy(nonce[:], header[nonceInHeaderOffset:])
 		msg, ok := secretbox.Open(nil, sealedMessage, &nonce, &msgKey.key)
 		if !ok {
-			return nil, errors.New("ratchet: corrupt message")
+			return nil, false, errors.New("ratchet: corrupt message")
 		}
 		delete(messageKeys, msgNum)
 		if len(messageKeys) == 0 {
 			delete(r.saved, headerKey)
 		}
-		return msg, nil
+		return msg, true, nil
 	}
 
-	return nil, nil
+	return nil, false, nil
 }
 
 // saveKeys takes a header key, the current chain key, a received message
@@ -406,8 +408,8 @@ func isZeroKey(key *[32]byte) bool {
 }
 
 func (r *Ratchet) Decrypt(ciphertext []byte) ([]byte, error) {
-	msg, err := r.trySavedKeys(ciphertext)
-	if err != nil || msg != nil {
+	msg, found, err := r.trySavedKeys(ciphertext)
+	if err != nil || found {
 		return msg, err
 	}
 
-- 
2.43.0


From 02f24f3225dc865147ea9e61c6c4dc748e5f3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 02/60] fix: blobshare: reject packed data that is too short

UnpackSaltNonce and UnpackNonce sliced their input without looking at its
length.  The input comes from the peer (key exchange) and from files, and
a short one crashed the process.
---
 blobshare/blobshare.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blobshare/blobshare.go b/blobshare/blobshare.go
index c0d4251..24bdf22 100644
--- a/blobshare/blobshare.go
+++ b/blobshare/blobshare.go
@@ -6,6 +6,7 @@ package blobshare
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 
@@ -17,6 +18,9 @@ var (
 	n = 16384
 	r = 8
 	p = 1
+
+	// ErrShort is returned when packed data is too short to unpack.
+	ErrShort = errors.New("packed data too short")
 )
 
 func SetNrp(nn, rr, pp int) {
@@ -78,6 +82,9 @@ func UnpackSaltNonce(packed []byte) (salt *[32]byte, nonce *[24]byte,
 		saltR  [32]byte
 		nonceR [24]byte
 	)
+	if len(packed) < len(saltR)+len(nonceR) {
+		return nil, nil, nil, ErrShort
+	}
 	copy(saltR[:], packed[0:32])
 	copy(nonceR[:], packed[32:32+24])
 	salt = &saltR
@@ -99,6 +106,9 @@ func PackNonce(nonce *[24]byte, data []byte) []byte {
 
 func UnpackNonce(packed []byte) (nonce *[24]byte, data []byte, err error) {
 	var nonceR [24]byte
+	if len(packed) < len(nonceR) {
+		return nil, nil, ErrShort
+	}
 	copy(nonceR[:], packed[0:24])
 	nonce = &nonceR
 
-- 
2.43.0


From 2a730f8ae393cb5408f7ea87eb057ca810f798a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 03/60] fix: session: do not lose sync when a message is too
 large

Write advanced the write sequence before it refused an oversized message,
after which the peer could not decrypt anything that followed.
---
 session/kx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/session/kx.go b/session/kx.go
index 633d269..cdca5b4 100644
--- a/session/kx.go
+++ b/session/kx.go
@@ -416,11 +416,13 @@ func (kx *KX) Read() ([]byte, error) {
 }
 
 func (kx *KX) writeWithKey(data []byte, k *[32]byte) error {
-	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
-	incSeq(&kx.writeSeq)
-	if uint(len(payload)) > kx.MaxMessageSize {
+	// Nothing is sent when data is too large, do not use up a sequence
+	// number or we lose sync with our peer.
+	if uint(len(data)+secretbox.Overhead) > kx.MaxMessageSize {
 		return ErrOverflow
 	}
+	payload := secretbox.Seal(nil, data, &kx.writeSeq, k)
+	incSeq(&kx.writeSeq)
 	_, err := xdr.Marshal(kx.Conn, payload)
 	if err != nil {
 		return ErrMarshal
-- 
2.43.0


From 31d9f0d43ae89c9b9abf9475cc547d4c21f59e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 04/60] fix: zkidentity: verify that the identity is the digest
 of the key

---
 zkidentity/zkidentity.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkidentity/zkidentity.go b/zkidentity/zkidentity.go
index 40e8468..826c4a4 100644
--- a/zkidentity/zkidentity.go
+++ b/zkidentity/zkidentity.go
@@ -146,6 +146,11 @@ func (p PublicIdentity) Fingerprint() string {
 }
 
 func (p *PublicIdentity) Verify() bool {
+	// the short handle must be the digest of the key
+	if p.Identity != sha256.Sum256(p.Key[:]) {
+		return false
+	}
+
 	d := sha256.New()
 	d.Write([]byte(p.Name))
 	d.Write([]byte(p.Nick))
-- 
2.43.0


From 8dcc16fee9f8cd6914e069047373fd793ee8d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 05/60] fix: inidb: save the default table before all others

---
 inidb/inidb.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 392df5e..9d57d4c 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -108,10 +108,16 @@ func (i *INIDB) Save() error {
 
 	// save all records
 	fmt.Fprintf(f, "%v\n", auto)
+	for rk, rv := range i.tables[""] {
+		// the default table has no header and must therefore come first
+		fmt.Fprintf(f, "%v = %v\n", rk, rv)
+	}
+	fmt.Fprintf(f, "\n")
 	for tk, tv := range i.tables {
-		if tk != "" {
-			fmt.Fprintf(f, "[%v]\n", tk)
+		if tk == "" {
+			continue
 		}
+		fmt.Fprintf(f, "[%v]\n", tk)
 		for rk, rv := range tv {
 			fmt.Fprintf(f, "%v = %v\n", rk, rv)
 		}
-- 
2.43.0


From ac193977e2581bcefce081a51a93e8f83486b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 06/60] fix: inidb: save new tables that have no records yet

---
 inidb/inidb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index 9d57d4c..e8d3e79 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -232,7 +232,13 @@ func (i *INIDB) NewTable(table string) {
 	i.mtx.Lock()
 	defer i.mtx.Unlock()
 
+	_, ok := i.tables[table]
+	if ok {
+		return
+	}
+
 	i.tables.Section(table)
+	i.dirty = true
 }
 
 // DelTable deletes an entire table including all records.
-- 
2.43.0


From 8eacbc9f568eb1574033f02acc3e7ec5fec9dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 07/60] fix: inidb: keep backups of a database that was just
 created

---
 inidb/inidb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index e8d3e79..a56c030 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -144,6 +144,7 @@ func (i *INIDB) Save() error {
 	}
 
 	i.dirty = false
+	i.created = false // from now on there is something to back up
 
 	return i.prune()
 }
-- 
2.43.0


From 285af2e22930e990de5e7c411d765c1291293d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 08/60] fix: inidb: do not replace the database with an
 incomplete one

---
 inidb/inidb.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index a56c030..cc4cb61 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -10,6 +10,7 @@
 package inidb
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -107,23 +108,32 @@ func (i *INIDB) Save() error {
 	}
 
 	// save all records
-	fmt.Fprintf(f, "%v\n", auto)
+	b := &bytes.Buffer{}
+	fmt.Fprintf(b, "%v\n", auto)
 	for rk, rv := range i.tables[""] {
 		// the default table has no header and must therefore come first
-		fmt.Fprintf(f, "%v = %v\n", rk, rv)
+		fmt.Fprintf(b, "%v = %v\n", rk, rv)
 	}
-	fmt.Fprintf(f, "\n")
+	fmt.Fprintf(b, "\n")
 	for tk, tv := range i.tables {
 		if tk == "" {
 			continue
 		}
-		fmt.Fprintf(f, "[%v]\n", tk)
+		fmt.Fprintf(b, "[%v]\n", tk)
 		for rk, rv := range tv {
-			fmt.Fprintf(f, "%v = %v\n", rk, rv)
+			fmt.Fprintf(b, "%v = %v\n", rk, rv)
 		}
-		fmt.Fprintf(f, "\n")
+		fmt.Fprintf(b, "\n")
+	}
+	_, err = f.Write(b.Bytes())
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err != nil {
+		// do not replace the original with an incomplete file
+		os.Remove(f.Name())
+		return fmt.Errorf("could not write temporary file: %v", err)
 	}
-	f.Close()
 
 	// backup original
 	if !i.created {
-- 
2.43.0


From 20d430d0255ba036182ee75c6c20bcde4a3cd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 09/60] fix: inidb: do not lose the database when interrupted
 while saving

---
 inidb/inidb.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inidb/inidb.go b/inidb/inidb.go
index cc4cb61..49751f1 100644
--- a/inidb/inidb.go
+++ b/inidb/inidb.go
@@ -135,14 +135,19 @@ func (i *INIDB) Save() error {
 		return fmt.Errorf("could not write temporary file: %v", err)
 	}
 
-	// backup original
+	// backup original, it remains in place until the new one replaces it
 	if !i.created {
 		backup := fmt.Sprintf("%v.%v",
 			i.filename,
 			time.Now().Format("20060102.150405.000000000"))
-		err = os.Rename(i.filename, backup)
+		err = os.Link(i.filename, backup)
 		if err != nil {
-			return fmt.Errorf("could not rename original file: %v",
+			// not all filesystems can link
+			err = os.Rename(i.filename, backup)
+		}
+		if err != nil {
+			os.Remove(f.Name())
+			return fmt.Errorf("could not backup original file: %v",
 				err)
 		}
 	}
@@ -150,6 +155,7 @@ func (i *INIDB) Save() error {
 	// rename new one
 	err = os.Rename(f.Name(), i.filename)
 	if err != nil {
+		os.Remove(f.Name())
 		return fmt.Errorf("could not rename new file: %v", err)
 	}
 
-- 
2.43.0


From ecaeb08477c7c2a7a8930d8d02018e29aec652f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 10/60] fix: account: do not stall deliveries that arrive while
 going online

---
 zkserver/account/account.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 1acde37..0d5aed4 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -421,13 +421,11 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 		quit:      make(chan struct{}),
 		processed: make(map[string]struct{}),
 	}
+	dn.work <- struct{}{} // first time around start delivering
 	a.online[who] = dn
 	a.Unlock()
 
 	go func() {
-		// first time around start delivering
-		dn.work <- struct{}{}
-
 		for {
 			select {
 			case <-dn.quit:
-- 
2.43.0


From f7c6b6a8c5b743049cb44eaf9dc146b731bf94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 11/60] fix: account: ignore messages that were deleted while
 delivering

---
 zkserver/account/account.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 0d5aed4..4084304 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -455,6 +455,14 @@ func (a *Account) Online(who [zkidentity.IdentitySize]byte, ntfn chan *Notificat
 
 				filename := path.Join(cache, v.Name())
 				f, err := os.Open(filename)
+				if os.IsNotExist(err) {
+					// acknowledged and deleted after we
+					// listed the directory
+					a.Lock()
+					delete(dn.processed, v.Name())
+					a.Unlock()
+					continue
+				}
 				if err != nil {
 					dn.send(&Notification{
 						Error: fmt.Errorf("%v: %v",
-- 
2.43.0


From c735c4795aa40caf07583f3c4ffe53b030118896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 12/60] fix: account: do not let simultaneous deliveries
 overwrite each other

---
 zkserver/account/account.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 4084304..fc2acb8 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -314,9 +314,6 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 	// get directory
 	cache := a.accountFile(to, CacheDir)
 
-	// calculate next filename
-	filename := time.Now().Format("20060102150405.000000000")
-
 	// convert to on disk format
 	dm := diskMessage{
 		From:      from,
@@ -330,6 +327,12 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("could not marshal diskMessage")
 	}
 
+	a.Lock()
+	defer a.Unlock()
+
+	// calculate next filename
+	filename := time.Now().Format("20060102150405.000000000")
+
 	// sanity
 	fullPath := path.Join(cache, filename)
 	_, err = os.Stat(fullPath)
@@ -337,9 +340,6 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	a.Lock()
-	defer a.Unlock()
-
 	// and dump it
 	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
 	if err != nil {
-- 
2.43.0


From 3ae3dbca51264df8488f96bdc393a5c842528902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 13/60] fix: account: do not leave incomplete messages in the
 cache

---
 zkserver/account/account.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index fc2acb8..86c5e9b 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -340,11 +340,23 @@ func (a *Account) Deliver(to [zkidentity.IdentitySize]byte, from [zkidentity.Ide
 		return "", fmt.Errorf("duplicate filename %v", filename)
 	}
 
-	// and dump it
-	err = ioutil.WriteFile(fullPath, b.Bytes(), 0600)
+	// and dump it, the message must be complete when it appears in the
+	// cache
+	f, err := ioutil.TempFile(a.accountFile(to, ""), "deliver")
 	if err != nil {
 		return "", fmt.Errorf("could not write to %v: %v", cache, err)
 	}
+	_, err = f.Write(b.Bytes())
+	if err2 := f.Close(); err == nil {
+		err = err2
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), fullPath)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+		return "", fmt.Errorf("could not write to %v: %v", cache, err)
+	}
 
 	// notify
 	dn, found := a.online[to]
-- 
2.43.0


From f75b1b5a87c33fc3e83b15143691a2602926ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 14/60] fix: account: find users in spite of an incomplete
 account

---
 zkserver/account/account.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 86c5e9b..33f9995 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -201,8 +201,7 @@ func (a *Account) Find(nick string) (*zkidentity.PublicIdentity, error) {
 		dirname := path.Join(a.root, v.Name())
 		user, err := inidb.New(path.Join(dirname, UserIdentityFilename), false, 10)
 		if err != nil {
-			a.Unlock()
-			return nil, fmt.Errorf("could not find user: %v", err)
+			continue // not a complete account
 		}
 		a.Unlock()
 
-- 
2.43.0


From 29f69a8dfb3acb416ab6f619c0f5d9495cf3f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 15/60] fix: account: do not create disabled accounts and allow
 to complete others

---
 zkserver/account/account.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zkserver/account/account.go b/zkserver/account/account.go
index 33f9995..e14b39c 100644
--- a/zkserver/account/account.go
+++ b/zkserver/account/account.go
@@ -125,9 +125,13 @@ func (a *Account) Create(pid zkidentity.PublicIdentity, force bool) error {
 	if err == nil {
 		return fmt.Errorf("nickname already in use")
 	}
-	// make sure account doesn't exist
+	if a.Disabled(pid.Identity) {
+		return fmt.Errorf("account is disabled: %v",
+			a.accountDirDisabled(pid.Identity))
+	}
+	// make sure account doesn't exist, the cache is created last
 	accountName := a.accountDir(pid.Identity)
-	_, err = os.Stat(accountName)
+	_, err = os.Stat(a.accountFile(pid.Identity, CacheDir))
 	if err == nil {
 		if !force {
 			return fmt.Errorf("account already exists: %v",
-- 
2.43.0


From cd9c023e68b2049841c97d9e2df0a5c46307e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 16/60] fix: zkserver: reject tags that are out of range

---
 zkserver/zkserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 1c8ff17..b9a4c19 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -447,7 +447,7 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 			return fmt.Errorf("unmarshal header failed")
 		}
 
-		if message.Tag > tagDepth {
+		if message.Tag >= tagDepth {
 			return fmt.Errorf("invalid tag received %v", message.Tag)
 		}
 
-- 
2.43.0


From 23384bd89c199849b305b7580ef4dcf509795820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 17/60] fix: zkserver: do not crash when enabling or disabling
 an invalid identity

---
 zkserver/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 585e527..1ee1b60 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -109,7 +109,7 @@ func (z *ZKS) handleIdentityDisable(ud socketapi.SocketCommandUserDisable) (udr
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		udr.Error = err.Error()
+		udr.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
@@ -132,7 +132,7 @@ func (z *ZKS) handleIdentityEnable(ue socketapi.SocketCommandUserEnable) (uer *s
 		return
 	}
 	if len(id) != zkidentity.IdentitySize {
-		uer.Error = err.Error()
+		uer.Error = "invalid identity length"
 		return
 	}
 	var pid [zkidentity.IdentitySize]byte
-- 
2.43.0


From 5b717be6acd63e8bb4d8d6afc470222692a6550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 18/60] fix: zkserver: reject acknowledgements of tags that are
 not outstanding

---
 zkserver/zkserver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index b9a4c19..420fdf8 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -522,6 +522,12 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 				message.Tag)
 
 			// sanity
+			if m == nil {
+				return fmt.Errorf("acknowledge tag not "+
+					"outstanding: %v %v",
+					message.Tag,
+					rids)
+			}
 			if m != nil && m.Message.Tag != message.Tag {
 				return fmt.Errorf("acknowledge tag doesn't "+
 					"match: %v %v %v",
-- 
2.43.0


From 2e58cd2fb991f68755308b3a6267a7ef29c7190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 19/60] fix: zkserver: do not leave users online whose
 connection broke

---
 zkserver/zkserver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 420fdf8..3e1cc52 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -220,6 +220,16 @@ func (z *ZKS) sessionWriter(sc *sessionContext) {
 
 		// close underlying connection in order to fail read
 		sc.kx.Close()
+
+		// unblock handleSession and sessionNtfn when they are queueing
+		// messages, they will notice that the connection is gone
+		for {
+			select {
+			case <-sc.quit:
+				return
+			case <-sc.writer:
+			}
+		}
 	}()
 
 	for {
-- 
2.43.0


From 64a1138d89400568b5fe652a6b9c63dc9ec0515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 20/60] fix: zkserver: deliver messages in spite of one that
 cannot be read

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 3e1cc52..ed57608 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -292,8 +292,9 @@ func (z *ZKS) sessionNtfn(sc *sessionContext) {
 			}
 
 			if n.Error != nil {
+				// other messages can still be delivered
 				z.Error(idS, "notification error: %v", n.Error)
-				return
+				continue
 			}
 
 			// obtain tag
-- 
2.43.0


From 53dfea2adfad53ec861c4c7b9d6a37d71974b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 21/60] fix: zkserver: do not forget the session of a user that
 reconnects

---
 zkserver/zkserver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index ed57608..8ceed70 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -419,13 +419,14 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		// stop it all
 		close(sc.quit)
 
-		z.account.Offline(rid)
-
-		// mark session offline
+		// mark session offline, must be done before the account may
+		// come online again or we remove the next session
 		z.Lock()
 		delete(z.sessions, rids)
 		z.Unlock()
 
+		z.account.Offline(rid)
+
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
-- 
2.43.0


From efb75acb03233a4ff4e2686833a5ae7bcfbbb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 22/60] fix: zkserver: go offline when the directory cannot be
 updated

---
 zkserver/zkserver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 8ceed70..0fb9248 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -401,15 +401,6 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 
 	z.Dbg(idS, "handleSession account online: %v", rids)
 
-	// populate identity in directory
-	if z.settings.Directory {
-		err := z.account.Push(rid)
-		if err != nil {
-			return fmt.Errorf("handleSession: Push(%v) = %v",
-				rids, err)
-		}
-	}
-
 	tagBitmap := make([]bool, tagDepth) // see if there is a duplicate tag
 	go z.sessionWriter(&sc)
 	go z.sessionNtfn(&sc)
@@ -430,6 +421,15 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// populate identity in directory
+	if z.settings.Directory {
+		err := z.account.Push(rid)
+		if err != nil {
+			return fmt.Errorf("handleSession: Push(%v) = %v",
+				rids, err)
+		}
+	}
+
 	for {
 		var message rpc.Message
 
-- 
2.43.0


From 81020cecaa311f94ead60d1f6a5bd8afefdf3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 23/60] fix: zkserver: knock users offline that are disabled
 while connecting

---
 zkserver/zkserver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 0fb9248..7e1537b 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -421,6 +421,13 @@ func (z *ZKS) handleSession(kx *session.KX) error {
 		z.Dbg(idS, "handleSession exit: %v", rids)
 	}()
 
+	// the user may have been disabled before we were able to be knocked
+	// offline
+	if z.account.Disabled(rid) {
+		return fmt.Errorf("handleSession: disabled user identity: %v",
+			rids)
+	}
+
 	// populate identity in directory
 	if z.settings.Directory {
 		err := z.account.Push(rid)
-- 
2.43.0


From 6868a596ee34b2a8cb3102af4aea204b0df0b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 24/60] fix: zkserver: do not share welcome properties between
 sessions

---
 zkserver/zkserver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 7e1537b..a2381c4 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -165,7 +165,9 @@ func (z *ZKS) welcome(kx *session.KX) error {
 		motd = []byte{}
 	}
 
-	properties := rpc.SupportedServerProperties
+	properties := make([]rpc.ServerProperty,
+		len(rpc.SupportedServerProperties))
+	copy(properties, rpc.SupportedServerProperties)
 	for k, v := range properties {
 		switch v.Key {
 		case rpc.PropTagDepth:
-- 
2.43.0


From acde4f27ed14abf71c13961e08b2b7cb3b664a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 25/60] fix: zkserver: do not accept a token twice

---
 zkserver/pending.go  | 4 ++++
 zkserver/zkserver.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/zkserver/pending.go b/zkserver/pending.go
index 4d9a28b..93a34d7 100644
--- a/zkserver/pending.go
+++ b/zkserver/pending.go
@@ -39,6 +39,10 @@ func (z *ZKS) prunePending(pending *inidb.INIDB) {
 }
 
 func (z *ZKS) validToken(token string, conn net.Conn) bool {
+	// a token may be used only once
+	z.dbMtx.Lock()
+	defer z.dbMtx.Unlock()
+
 	// open db
 	pending, err := inidb.New(path.Join(z.settings.Root, pendingPath),
 		true, 10)
diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index a2381c4..738a97d 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -85,6 +85,8 @@ type ZKS struct {
 
 	socket net.Listener // socket for zkserverctl
 
+	dbMtx sync.Mutex // pending and rendezvous databases
+
 	// Not mutex entries
 	*debug.Debug
 	account  *account.Account
-- 
2.43.0


From ed760990e0bdb78e7032bc6c95e108ff85db9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 26/60] fix: zkserver: do not lose rendezvous blobs of
 simultaneous users

---
 zkserver/rendezvous.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/zkserver/rendezvous.go b/zkserver/rendezvous.go
index 56c4f0d..d372e72 100644
--- a/zkserver/rendezvous.go
+++ b/zkserver/rendezvous.go
@@ -71,8 +71,10 @@ func (z *ZKS) handleRendezvousPull(writer chan *RPCWrapper,
 	}
 
 	// open db
+	z.dbMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
+	z.dbMtx.Unlock()
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
 		return fmt.Errorf("could not open rendezvous db: %v", err)
 	}
@@ -141,20 +143,15 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	retry := 25
 
 	// open db
+	z.dbMtx.Lock()
 	rz, err := inidb.New(path.Join(z.settings.Root, rendezvousPath),
 		true, 10)
 	if err != nil && !errors.Is(err, inidb.ErrCreated) {
+		z.dbMtx.Unlock()
 		return fmt.Errorf("could not open rendezvous db: %v",
 			err)
 	}
 	//defer z.pruneRendezvous(rz) // kill all expired records
-	defer func() {
-		// save db back
-		err := rz.Save()
-		if err != nil {
-			z.Error(idApp, "could not save rendezvous db: %v", err)
-		}
-	}()
 
 	// sanitize inputs
 	if len(r.Blob) > 4096 {
@@ -204,6 +201,13 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 			continue
 		}
 
+		// save db back before the token is used
+		err = rz.Save()
+		if err != nil {
+			z.Error(idApp, "could not save rendezvous db: %v", err)
+			goto bad
+		}
+
 		// success
 		payload.Error = ""
 		payload.Token = tokenS
@@ -211,6 +215,7 @@ func (z *ZKS) handleRendezvous(writer chan *RPCWrapper,
 	}
 
 bad:
+	z.dbMtx.Unlock()
 	reply.Payload = payload
 	writer <- &reply
 	return nil
-- 
2.43.0


From 0b96852308bd5c6d8791b1f1fa426bea3964f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 27/60] fix: zkserver: do not create accounts for invalid
 identities

---
 zkserver/account.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkserver/account.go b/zkserver/account.go
index 1ee1b60..28a4e76 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -53,6 +53,12 @@ func (z *ZKS) handleAccountCreate(conn net.Conn, ca rpc.CreateAccount) error {
 	case "yes":
 	}
 
+	// the identity names the account, it must belong to the keys
+	if !ca.PublicIdentity.Verify() {
+		z.accountReplyFailure("invalid identity", conn, ca)
+		return fmt.Errorf("invalid identity")
+	}
+
 	// try to create account
 	err := z.account.Create(ca.PublicIdentity, false)
 	if err != nil {
-- 
2.43.0


From 2094c1479da0d0f60f0d3257cdc6f70cfdf66730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 28/60] fix: zkserver: do not find identities when there is no
 directory

---
 zkserver/account.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zkserver/account.go b/zkserver/account.go
index 28a4e76..24471b4 100644
--- a/zkserver/account.go
+++ b/zkserver/account.go
@@ -6,6 +6,7 @@ package main
 
 import (
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"net"
 
@@ -95,7 +96,11 @@ func (z *ZKS) handleIdentityFind(writer chan *RPCWrapper, msg rpc.Message, nick
 	payload := rpc.IdentityFindReply{
 		Nick: nick,
 	}
-	id, err := z.account.Find(nick)
+	err := errors.New("no directory")
+	id := &zkidentity.PublicIdentity{}
+	if z.settings.Directory {
+		id, err = z.account.Find(nick)
+	}
 	if err != nil {
 		payload.Error = fmt.Sprintf("nick not found: %v", nick)
 	} else {
-- 
2.43.0


From 80e8316a82e3226b6c81c13244fbdaec94d843f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 29/60] fix: zkserver: do not accept messages that are too
 large to be pushed

---
 zkserver/cache.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/zkserver/cache.go b/zkserver/cache.go
index fde549c..b1de808 100644
--- a/zkserver/cache.go
+++ b/zkserver/cache.go
@@ -5,6 +5,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 	"path"
@@ -12,8 +13,29 @@ import (
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
+	xdr "github.com/davecgh/go-xdr/xdr2"
+	"golang.org/x/crypto/nacl/secretbox"
 )
 
+// deliver drops a message on disk.  A message that is too large to be pushed
+// is not accepted, the recipient would lose the connection over and over.
+func (z *ZKS) deliver(to, from [zkidentity.IdentitySize]byte, payload []byte, cleartext bool) (string, error) {
+	var bb bytes.Buffer
+	_, err := xdr.Marshal(&bb, rpc.Message{Command: rpc.TaggedCmdPush})
+	if err != nil {
+		return "", fmt.Errorf("could not marshal message")
+	}
+	_, err = xdr.Marshal(&bb, rpc.Push{Payload: payload})
+	if err != nil {
+		return "", fmt.Errorf("could not marshal push")
+	}
+	if uint64(bb.Len()+secretbox.Overhead) > z.settings.MaxMsgSize {
+		return "", fmt.Errorf("message too large")
+	}
+
+	return z.account.Deliver(to, from, payload, cleartext)
+}
+
 // think about establishing whitelist or just blind deliver
 func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Message, cache rpc.Cache) error {
 	// sanity
@@ -30,7 +52,7 @@ func (z *ZKS) handleCache(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(cache.To, from, cache.Payload, false)
+	filename, err := z.deliver(cache.To, from, cache.Payload, false)
 	if err != nil {
 		replyError := "internal error"
 		replyErrorCode := rpc.ErrorCodeInvalid
@@ -99,7 +121,7 @@ func (z *ZKS) handleProxy(writer chan *RPCWrapper, kx *session.KX, msg rpc.Messa
 	if !ok {
 		return fmt.Errorf("invalid identity type")
 	}
-	filename, err := z.account.Deliver(proxy.To, from, proxy.Payload, true)
+	filename, err := z.deliver(proxy.To, from, proxy.Payload, true)
 	if err != nil {
 		payload.Error = fmt.Sprintf("proxy delivery failed to: %x",
 			proxy.To)
-- 
2.43.0


From 412498002eb786e4c8df1ac9ad48730370a094b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 30/60] fix: zkserver: obey maxmsgsize

---
 zkserver/settings/settings.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zkserver/settings/settings.go b/zkserver/settings/settings.go
index 2c6723a..a9c82d5 100644
--- a/zkserver/settings/settings.go
+++ b/zkserver/settings/settings.go
@@ -149,6 +149,15 @@ func (s *Settings) Load(filename string) error {
 		}
 	}
 
+	// maxmsgsize
+	msz, ok := cfg.Get("", "maxmsgsize")
+	if ok {
+		s.MaxMsgSize, err = strconv.ParseUint(msz, 10, 64)
+		if err != nil {
+			return fmt.Errorf("maxmsgsize invalid: %v", err)
+		}
+	}
+
 	// logging and debug
 	logFile, ok := cfg.Get("log", "logfile")
 	if ok {
-- 
2.43.0


From 16c3fd5682d1a2b1cf402d2cddeb448b8e7718ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 31/60] fix: zkserver: knock disabled users offline whatever
 the case of the identity

---
 zkserver/zkserver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zkserver/zkserver.go b/zkserver/zkserver.go
index 738a97d..2b6b2e1 100644
--- a/zkserver/zkserver.go
+++ b/zkserver/zkserver.go
@@ -21,6 +21,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strconv"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -790,7 +791,7 @@ func (z *ZKS) socketHandler(c net.Conn) {
 
 			// knock user offline
 			z.Lock()
-			if sc, ok := z.sessions[jud.Identity]; ok {
+			if sc, ok := z.sessions[strings.ToLower(jud.Identity)]; ok {
 				z.Dbg(idSock, "user disconnected %s",
 					jud.Identity)
 				sc.kx.Close()
-- 
2.43.0


From 0d2af5432c89be9821b51fd786514fe2d5910fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 32/60] fix: client: a session that ends while a message is
 written crashed the client

writeMessage and welcomeUser used z.kx, which handleRPC sets to nil when
the connection goes away; use the session that was current instead.
---
 zkclient/zkclient.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 58fc5fc..d0a05fc 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1651,7 +1651,13 @@ func (z *ZKC) parseMyIdentity(server *inidb.INIDB) error {
 }
 
 func (z *ZKC) welcomeUser(welcome *rpc.Welcome) error {
-	remoteId, ok := z.kx.TheirIdentity().([32]byte)
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
+	if kx == nil {
+		return fmt.Errorf("session already ended")
+	}
+	remoteId, ok := kx.TheirIdentity().([32]byte)
 	if !ok {
 		return fmt.Errorf("invalid KX identity type %T", remoteId)
 	}
@@ -1841,7 +1847,11 @@ func (z *ZKC) reset(nick string) error {
 
 // writeMessage marshals and sends encrypted message to server.
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	if !z.isOnline() {
+	// the session may end at any time, hold on to the current one
+	z.RLock()
+	kx, online := z.kx, z.online
+	z.RUnlock()
+	if !online {
 		return fmt.Errorf("not online")
 	}
 
@@ -1863,7 +1873,7 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("could not marshal payload %v", msg.Command)
 	}
 
-	err = z.kx.Write(bb.Bytes())
+	err = kx.Write(bb.Bytes())
 	if err != nil {
 		return fmt.Errorf("could not write %v: %v",
 			msg.Command, err)
-- 
2.43.0


From e062a52544b9e032d255700c8976d2e370e5f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 33/60] fix: client: commands of an ended session were sent in
 the next one

An acknowledgement, ping or tagged command that was queued when the
connection went away was sent in the next session with the tag of the old
one.  The server ends a session that acknowledges a message it does not know,
and deletes the wrong message when it does know one; answers used up tags
that were never handed out.
---
 zkclient/msg.go      |  8 +++++++-
 zkclient/zkclient.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index ddd06cf..64faab8 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -15,6 +15,7 @@ import (
 
 	"github.com/companyzero/zkc/ratchet"
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/session"
 	"github.com/companyzero/zkc/zkidentity"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
@@ -36,6 +37,7 @@ type wireMsg struct {
 	id *[zkidentity.IdentitySize]byte
 
 	msg rpc.Message // PRPC
+	kx  *session.KX // PRPC session, msg.Tag belongs to it
 
 	payload interface{} // always set
 
@@ -170,7 +172,7 @@ func (z *ZKC) scheduler() {
 								spew.Sdump(m.msg),
 								spew.Sdump(m.payload))
 						}
-						err = z.writeMessage(&m.msg, m.payload)
+						err = z.writePRPC(&m)
 						if err != nil {
 							z.PrintfT(-1, REDBOLD+
 								"PRPC (rescheduled): %v"+
@@ -236,8 +238,12 @@ func (z *ZKC) scheduleCRPC(hi bool, id *[zkidentity.IdentitySize]byte, payload i
 }
 
 func (z *ZKC) schedulePRPC(hi bool, msg rpc.Message, payload interface{}) {
+	z.RLock()
+	kx := z.kx
+	z.RUnlock()
 	m := wireMsg{
 		msg:     msg,
+		kx:      kx,
 		payload: payload,
 	}
 	if hi {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index d0a05fc..5c00592 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1855,6 +1855,40 @@ func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 		return fmt.Errorf("not online")
 	}
 
+	return z.writeSession(kx, msg, payload)
+}
+
+// writePRPC sends a PRPC.  The tag of a PRPC means something only in the
+// session it was scheduled in.  If that session is gone there is nothing left
+// to acknowledge or to ping, anything else needs a tag of the current session.
+func (z *ZKC) writePRPC(m *wireMsg) error {
+	z.RLock()
+	kx, online, tagStack := z.kx, z.online, z.tagStack
+	z.RUnlock()
+	if !online {
+		return fmt.Errorf("not online")
+	}
+
+	msg := m.msg
+	if m.kx != kx {
+		switch msg.Command {
+		case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+			return nil
+		}
+		tag, err := tagStack.Pop()
+		if err != nil {
+			return fmt.Errorf("could not obtain tag: %v", err)
+		}
+		msg.Tag = tag
+	}
+
+	return z.writeSession(kx, &msg, m.payload)
+}
+
+// writeSession marshals and sends encrypted message in the provided session.
+func (z *ZKC) writeSession(kx *session.KX, msg *rpc.Message,
+	payload interface{}) error {
+
 	// we lock the ticker, rename write mutex
 	defer func() {
 		z.write.Lock()
-- 
2.43.0


From f9a239fd1af43cff75bee562193be271b0a2eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 34/60] fix: client: closing a window did not wait for what was
 queued for windows

/wc renumbered the windows while lines queued by number were still to be
printed, so that they ended up in the window and log of someone else, and left
the active window out of range.
---
 zkclient/mainwindow.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 1936743..a0a496d 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -631,19 +631,9 @@ func (mw *mainWindow) action(cmd string) error {
 			return mw.doUsage(args)
 		}
 
-		mw.zkc.Lock()
-		defer mw.zkc.Unlock()
-		if mw.zkc.active <= 0 ||
-			mw.zkc.active > len(mw.zkc.conversation)-1 {
-			return nil
-		}
-
-		// delete conversation from list
-		i := mw.zkc.active
-		mw.zkc.conversation[i].console.Visibility(ttk.VisibilityHide)
-		mw.zkc.conversation = append(mw.zkc.conversation[:i:i],
-			mw.zkc.conversation[i+1:]...)
-		mw.zkc.focus(0)
+		// everything that was queued for a window must be done before
+		// windows are renumbered
+		ttk.Queue(mw.zkc.closeWindow)
 
 		return nil
 
@@ -767,12 +757,32 @@ func saveConversations(z *ZKC) error {
 	return cdb.Save()
 }
 
+// closeWindow closes the active window unless it is the console.  It must be
+// called from queue context.
+func (z *ZKC) closeWindow() {
+	z.Lock()
+	defer z.Unlock()
+
+	i := z.active
+	if i <= 0 || i > len(z.conversation)-1 {
+		return
+	}
+
+	// delete conversation from list
+	z.conversation[i].console.Visibility(ttk.VisibilityHide)
+	z.conversation = append(z.conversation[:i:i], z.conversation[i+1:]...)
+	z.active = 0
+	z.focus(0)
+}
+
 func closeAll(z *ZKC) {
 	z.Lock()
 	defer z.Unlock()
+	z.conversation[z.active].console.Visibility(ttk.VisibilityHide)
 	console := z.conversation[0]
 	z.conversation = make([]*conversation, 1)
 	z.conversation[0] = console
+	z.active = 0
 	z.focus(0)
 }
 
-- 
2.43.0


From 823c64a4ccf0005f5a4c236dbbce9e8a0ed31f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 35/60] fix: client: lines went to the wrong conversation when
 names coincide

A group chat was looked up by the nick of any window, so that one named like a
user, or like the user himself, was shown in and sent from another window, and
typed lines were sent by the nick of the window, which may contain spaces.
---
 zkclient/groupchat.go  |  4 ++--
 zkclient/mainwindow.go | 47 +++++++++++++++++++++++++++++++-----------
 zkclient/push.go       | 10 ++++-----
 zkclient/zkclient.go   |  4 ++--
 4 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index beb6514..f332c8d 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -319,7 +319,7 @@ func (z *ZKC) gcKick(args []string) error {
 			v *conversation
 		)
 		for k, v = range z.conversation {
-			if v.id.Nick == args[2] {
+			if v.group && v.nick == args[2] {
 				break
 			}
 		}
@@ -484,7 +484,7 @@ func (z *ZKC) gcKill(args []string) error {
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == args[2] {
+		if v.group && v.nick == args[2] {
 			z.PrintfT(k, REDBOLD+"group chat killed"+RESET)
 			break
 		}
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index a0a496d..6c5c175 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -350,6 +350,31 @@ func (mw *mainWindow) appendHistory(cmd string) {
 	fmt.Fprintf(f, "%v\n", cmd)
 }
 
+// say sends what was typed in the window of a conversation.
+func (mw *mainWindow) say(c *conversation, win int, text string) error {
+	msg := strings.TrimRight(text, " ")
+	if msg == "" {
+		return nil
+	}
+
+	if c.group {
+		return mw.zkc.gcMessage([]string{cmdGc, "m", c.nick, msg}, msg,
+			rpc.MessageModeNormal)
+	}
+
+	err := mw.zkc.pm(c.id.Identity, msg, rpc.MessageModeNormal)
+	if err != nil {
+		return err
+	}
+
+	// echo
+	mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
+		msg)
+
+	return nil
+}
+
 // action executes a user command.
 func (mw *mainWindow) action(cmd string) error {
 	if len(cmd) == 0 {
@@ -359,17 +384,12 @@ func (mw *mainWindow) action(cmd string) error {
 	// see if we got a command
 	if !strings.HasPrefix(cmd, leader) {
 		mw.zkc.RLock()
-		if mw.zkc.active != 0 {
-			var c string
-			if mw.zkc.conversation[mw.zkc.active].group {
-				c = cmdGc + " m "
-			} else {
-				c = cmdM + " "
-			}
-			cmd = c + mw.zkc.conversation[mw.zkc.active].nick +
-				" " + cmd
-		}
+		win := mw.zkc.active
+		c := mw.zkc.conversation[win]
 		mw.zkc.RUnlock()
+		if win != 0 {
+			return mw.say(c, win, cmd)
+		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
 
@@ -528,8 +548,11 @@ func (mw *mainWindow) action(cmd string) error {
 			return mw.doUsage(args)
 		}
 		// remove /m|/msg <identity>
-		msg := strings.TrimSpace(strings.TrimPrefix(cmd, args[0]))
+		msg := strings.TrimLeft(strings.TrimPrefix(cmd, args[0]), " ")
 		msg = strings.TrimRight(strings.TrimPrefix(msg, args[1]+" "), " ")
+		if msg == "" {
+			return mw.doUsage(args)
+		}
 
 		// determine if to is a nick or an identity
 		var (
@@ -539,7 +562,7 @@ func (mw *mainWindow) action(cmd string) error {
 		)
 		mw.zkc.RLock()
 		for k, v := range mw.zkc.conversation {
-			if v == nil {
+			if v == nil || k == 0 || v.group {
 				continue
 			}
 			if args[1] == v.nick {
diff --git a/zkclient/push.go b/zkclient/push.go
index 2307750..7c73bd9 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -822,7 +822,7 @@ func (z *ZKC) handleGroupJoin(msg rpc.Message, p rpc.Push,
 		z.settings.GcColor+gj.Name+RESET)
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gj.Name {
+		if v.group && v.nick == gj.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				"%v joined group chat",
 				id.Nick)
@@ -901,7 +901,7 @@ func (z *ZKC) handleGroupPart(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gp.Name {
+			if v.group && v.nick == gp.Name {
 				z.PrintfT(k, "%v left group chat: %v",
 					z.settings.PmColor+nick+RESET,
 					gp.Reason)
@@ -954,7 +954,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 		// echo on conversation window
 		for k, v := range z.conversation {
-			if v.id.Nick == gk.NewGroupList.Name {
+			if v.group && v.nick == gk.NewGroupList.Name {
 				if gk.Parted {
 					z.PrintfTS(k, time.Unix(p.Received, 0),
 						"left group chat: %v",
@@ -993,7 +993,7 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.NewGroupList.Name {
+		if v.group && v.nick == gk.NewGroupList.Name {
 			if gk.Parted {
 				z.PrintfTS(k, time.Unix(p.Received, 0),
 					"%v left group chat %v",
@@ -1036,7 +1036,7 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 
 	// echo on conversation window
 	for k, v := range z.conversation {
-		if v.id.Nick == gk.Name {
+		if v.group && v.nick == gk.Name {
 			z.PrintfTS(k, time.Unix(p.Received, 0),
 				REDBOLD+"group chat killed"+RESET)
 			break
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 5c00592..ce9e562 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -129,7 +129,7 @@ func (z *ZKC) FloodfT(nick, format string, args ...interface{}) {
 	z.RLock()
 	//search for active nick
 	for k, v := range z.conversation {
-		if v == nil || k == 0 {
+		if v == nil || k == 0 || v.group {
 			continue
 		}
 		if v.nick != nick {
@@ -375,7 +375,7 @@ func (z *ZKC) groupConversation(group string) (*conversation, int, error) {
 	defer z.Unlock()
 	x := -1
 	for k, v := range z.conversation {
-		if v.id.Nick == group {
+		if v.group && v.nick == group {
 			return v, k, nil
 		}
 		// next free slot
-- 
2.43.0


From 8b42f15f68bad9df71fa63211c541ca68d9e0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 36/60] fix: client: a nick could name somebody else after a
 restart or in a window

The nick given to an identity whose own nick was taken depended on the order
of the directory at the next start, and its window was named by the nick that
was taken.
---
 zkclient/addressbook.go | 11 +++++++++++
 zkclient/identity.go    |  1 +
 zkclient/zkclient.go    |  5 +++++
 3 files changed, 17 insertions(+)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index ab62e5e..f352ba0 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -63,8 +63,19 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 		return fmt.Errorf("can't add self to address book")
 	}
 
+	// a nick that was changed remains the same
+	filename := path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id.Identity[:]), nickFilename)
+	if b, err := ioutil.ReadFile(filename); err == nil {
+		id.Nick = string(b)
+	}
+
 	nick, err := z.ab.Add(id)
 	if errors.Is(err, addressbook.ErrDuplicateNick) {
+		err = ioutil.WriteFile(filename, []byte(nick), 0600)
+		if err != nil {
+			z.PrintfT(0, "could not save nick %v: %v", nick, err)
+		}
 		return fmt.Errorf("warning duplicate nick added: "+
 			"%v -> %v", id.Nick, nick)
 	}
diff --git a/zkclient/identity.go b/zkclient/identity.go
index 6131467..773c518 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -24,6 +24,7 @@ const (
 	ratchetFilename     = "ratchet.xdr"
 	halfRatchetFilename = "halfratchet.xdr"
 	identityFilename    = "publicidentity.xdr"
+	nickFilename        = "nick" // only when the nick was changed
 )
 
 // identityExists checks to see if identityFilename exists in the id directory.
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index ce9e562..b599d07 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -413,6 +413,11 @@ func (z *ZKC) getConversation(id [zkidentity.IdentitySize]byte) (*conversation,
 	} else {
 		c.nick = c.id.Nick
 	}
+	// the address book may know it by another nick
+	pid, err := z.ab.FindIdentity(id)
+	if err == nil {
+		c.nick = pid.Nick
+	}
 
 	// create conversation console in queue
 	done := make(chan struct{})
-- 
2.43.0


From daca86ef82ef03cdd327c74c1e5f0b18a3b89469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 37/60] fix: client: a line could go to another window when
 windows are closed

Lines that were queued for a window by number went to whatever window had that
number by the time they were printed, or nowhere.
---
 zkclient/groupchat.go  |   5 +-
 zkclient/mainwindow.go |  15 +++---
 zkclient/push.go       |   6 +--
 zkclient/zkclient.go   | 102 ++++++++++++++++++++++++++---------------
 4 files changed, 78 insertions(+), 50 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index f332c8d..95a213f 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -498,11 +498,10 @@ func (z *ZKC) gcMessage(args []string, msg string, mode rpc.MessageMode) error {
 		return fmt.Errorf("usage: /gc m|me <group> <message>")
 	}
 
-	c, win, err := z.groupConversation(args[2])
+	c, _, err := z.groupConversation(args[2])
 	if err != nil {
 		return fmt.Errorf("can't find conversation: %v", err)
 	}
-	_ = c
 
 	z.RLock()
 	defer z.RUnlock()
@@ -534,7 +533,7 @@ func (z *ZKC) gcMessage(args []string, msg string, mode rpc.MessageMode) error {
 	} else {
 		nick = fmt.Sprintf("<%v>", z.settings.NickColor+z.id.Public.Nick+RESET)
 	}
-	z.PrintfT(win, "%v %v", nick, msg)
+	z.printC(c, time.Now(), true, "%v %v", nick, msg)
 
 	return nil
 }
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 6c5c175..4a3993d 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -17,6 +17,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/inidb"
@@ -351,7 +352,7 @@ func (mw *mainWindow) appendHistory(cmd string) {
 }
 
 // say sends what was typed in the window of a conversation.
-func (mw *mainWindow) say(c *conversation, win int, text string) error {
+func (mw *mainWindow) say(c *conversation, text string) error {
 	msg := strings.TrimRight(text, " ")
 	if msg == "" {
 		return nil
@@ -368,7 +369,7 @@ func (mw *mainWindow) say(c *conversation, win int, text string) error {
 	}
 
 	// echo
-	mw.zkc.PrintfT(win, "<%v> %v",
+	mw.zkc.printC(c, time.Now(), true, "<%v> %v",
 		mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
 		msg)
 
@@ -388,7 +389,7 @@ func (mw *mainWindow) action(cmd string) error {
 		c := mw.zkc.conversation[win]
 		mw.zkc.RUnlock()
 		if win != 0 {
-			return mw.say(c, win, cmd)
+			return mw.say(c, cmd)
 		}
 	}
 	//mw.zkc.Dbg(idZKC, "action: [%v]", cmd)
@@ -537,7 +538,7 @@ func (mw *mainWindow) action(cmd string) error {
 		}
 
 		// echo
-		mw.zkc.PrintfT(-1, "* %v %v",
+		mw.zkc.printC(c, time.Now(), true, "* %v %v",
 			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
 			msg)
 
@@ -557,7 +558,6 @@ func (mw *mainWindow) action(cmd string) error {
 		// determine if to is a nick or an identity
 		var (
 			c   *conversation
-			win int
 			err error
 		)
 		mw.zkc.RLock()
@@ -567,14 +567,13 @@ func (mw *mainWindow) action(cmd string) error {
 			}
 			if args[1] == v.nick {
 				c = v
-				win = k
 				break
 			}
 		}
 		mw.zkc.RUnlock()
 
 		if c == nil {
-			c, win, err = mw.zkc.addressBookConversation(args[1])
+			c, _, err = mw.zkc.addressBookConversation(args[1])
 			if errors.Is(err, errPendingKX) {
 				mw.zkc.PrintfT(-1, "Attempting key exchange "+
 					"with %v", args[1])
@@ -591,7 +590,7 @@ func (mw *mainWindow) action(cmd string) error {
 			return err
 		}
 		// echo
-		mw.zkc.PrintfT(win, "<%v> %v",
+		mw.zkc.printC(c, time.Now(), true, "<%v> %v",
 			mw.zkc.settings.NickColor+mw.zkc.id.Public.Nick+RESET,
 			msg)
 
diff --git a/zkclient/push.go b/zkclient/push.go
index 7c73bd9..55404b6 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -696,7 +696,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 func (z *ZKC) handlePm(msg rpc.Message, p rpc.Push,
 	pm rpc.PrivateMessage) error {
 
-	c, win, err := z.getConversation(p.From)
+	c, _, err := z.getConversation(p.From)
 	if err != nil {
 		return fmt.Errorf("unknown conversation: %v", err)
 	}
@@ -707,7 +707,7 @@ func (z *ZKC) handlePm(msg rpc.Message, p rpc.Push,
 	} else {
 		n = fmt.Sprintf("<%v>", z.settings.PmColor+c.nick+RESET)
 	}
-	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, pm.Text)
+	z.printC(c, time.Unix(p.Received, 0), false, "%v %v", n, pm.Text)
 
 	// annoy people
 	if z.settings.Beep {
@@ -1284,7 +1284,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	} else {
 		n = fmt.Sprintf("<%v>", z.settings.GcColor+nick+RESET)
 	}
-	z.PrintfTS(win, time.Unix(p.Received, 0), "%v %v", n, s)
+	z.printC(c, time.Unix(p.Received, 0), false, "%v %v", n, s)
 
 	// annoy people
 	if z.settings.Beep {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index b599d07..2339a61 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -152,49 +152,79 @@ func (z *ZKC) printf(id int, ts time.Time, localTs bool, format string, args ...
 	output := fmt.Sprintf(format, args...)
 	ttk.Queue(func() {
 		z.Lock()
-		if id < 0 {
-			id = z.active
-		}
-		if id < len(z.conversation) && z.conversation[id] != nil {
-			// We do these gymnastics in order to print a
-			// separator line where conversation left off.
-			if z.active != id && z.settings.Separator &&
-				z.conversation[id].console.Len() != 0 &&
-				id != 0 && !z.conversation[id].separator {
-				t := fmt.Sprintf("%v ",
-					ts.Format(z.settings.TimeFormat))
-				r := z.conversation[id].console.Width() - len(t)
-				if r <= 0 {
-					// assume normal terminal width
-					r = 80 - len(t)
-				}
-				z.conversation[id].console.Append("%v%v",
-					t, strings.Repeat("-", r))
-				z.conversation[id].separator = true
-			}
+		z._print(id, ts, localTs, output)
+		z.Unlock()
+		ttk.Flush()
+	})
+}
 
-			if !localTs {
-				z.updateTS(id, ts)
-			}
-			z.conversation[id].console.Append("%v %v",
-				ts.Format(z.settings.TimeFormat),
-				output)
-			z.conversation[id].console.Render()
-			if z.active != id {
-				z.conversation[id].dirty = true
+// printC prints in the window of a conversation, wherever it is by the time it
+// is printed.  A window that was closed is opened again.
+func (z *ZKC) printC(c *conversation, ts time.Time, localTs bool, format string, args ...interface{}) {
+	output := fmt.Sprintf(format, args...)
+	ttk.Queue(func() {
+		z.Lock()
+		id := -1
+		for k, v := range z.conversation {
+			if v == c || k != 0 && v != nil && v.group == c.group &&
+				v.nick == c.nick &&
+				v.id.Identity == c.id.Identity {
+				id = k
+				break
 			}
 		}
+		if id == -1 {
+			id = len(z.conversation)
+			z.conversation = append(z.conversation, c)
+		}
+		z._print(id, ts, localTs, output)
+		z.Unlock()
+		ttk.Flush()
+	})
+}
 
-		s := z.calculateStatus()
-		z.mw.status.SetText(s)
-		z.mw.status.Render()
+// _print prints in a window.  It must be called from queue context with the
+// lock held.
+func (z *ZKC) _print(id int, ts time.Time, localTs bool, output string) {
+	if id < 0 {
+		id = z.active
+	}
+	if id < len(z.conversation) && z.conversation[id] != nil {
+		// We do these gymnastics in order to print a
+		// separator line where conversation left off.
+		if z.active != id && z.settings.Separator &&
+			z.conversation[id].console.Len() != 0 &&
+			id != 0 && !z.conversation[id].separator {
+			t := fmt.Sprintf("%v ",
+				ts.Format(z.settings.TimeFormat))
+			r := z.conversation[id].console.Width() - len(t)
+			if r <= 0 {
+				// assume normal terminal width
+				r = 80 - len(t)
+			}
+			z.conversation[id].console.Append("%v%v",
+				t, strings.Repeat("-", r))
+			z.conversation[id].separator = true
+		}
 
-		z.log(id, "%v %v", ts.Format(z.settings.LongTimeFormat),
+		if !localTs {
+			z.updateTS(id, ts)
+		}
+		z.conversation[id].console.Append("%v %v",
+			ts.Format(z.settings.TimeFormat),
 			output)
+		z.conversation[id].console.Render()
+		if z.active != id {
+			z.conversation[id].dirty = true
+		}
+	}
 
-		z.Unlock()
-		ttk.Flush()
-	})
+	s := z.calculateStatus()
+	z.mw.status.SetText(s)
+	z.mw.status.Render()
+
+	z.log(id, "%v %v", ts.Format(z.settings.LongTimeFormat),
+		output)
 }
 
 func (z *ZKC) log(id int, format string, args ...interface{}) {
-- 
2.43.0


From f51aa8f185fdad5b6779085bcf36dad163844154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 38/60] fix: client: what could not be sent waited for
 something else to be sent

Commands that were typed while offline, or for which there was no tag, were
retried only with the next command or heartbeat.  The heartbeat is put off by
everything that is written, e.g. acknowledgements, so this could take forever.
---
 zkclient/msg.go      | 10 ++++++++++
 zkclient/zkclient.go | 13 ++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 64faab8..8f5f649 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -58,6 +58,7 @@ func (z *ZKC) scheduler() {
 	hi := make([]wireMsg, 0, maxMsg)  // high prio messages
 	lo := make([]wireMsg, 0, maxBulk) // low prio messages
 	execute := make(chan bool, 2)     // tell them there is work
+	z.execute = execute
 
 	queueHi := func(m wireMsg) {
 		// queue message
@@ -196,6 +197,15 @@ func (z *ZKC) scheduler() {
 	}()
 }
 
+// resume retries what could not be sent because there was no session or no
+// tag.
+func (z *ZKC) resume() {
+	select {
+	case z.execute <- true:
+	default:
+	}
+}
+
 func (z *ZKC) queueDepth() (*queueDepth, error) {
 	select {
 	case z.depth <- struct{}{}:
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 2339a61..8bb2992 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -673,11 +673,12 @@ type ZKC struct {
 	directory       bool   // whether the server is in directory mode
 
 	// new rpc writer
-	done   chan struct{}    // shut it down
-	lo     chan wireMsg     // low priority data channel
-	hi     chan wireMsg     // high priority message channel
-	depth  chan struct{}    // return queue depth
-	queueW chan *queueDepth // return queue depth
+	done    chan struct{}    // shut it down
+	lo      chan wireMsg     // low priority data channel
+	hi      chan wireMsg     // high priority message channel
+	execute chan bool        // there is work for the writer
+	depth   chan struct{}    // return queue depth
+	queueW  chan *queueDepth // return queue depth
 
 	// online is a hint to indicate if we are in session phase
 	online  bool // currently online
@@ -1016,6 +1017,7 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	}
 
 	go z.handleRPC()
+	z.resume()
 
 	return welcome, nil
 }
@@ -1491,6 +1493,7 @@ func (z *ZKC) handleRPC() {
 					"invalid tag: %v", message.Tag)
 				return
 			}
+			z.resume()
 
 			// print error if we got one
 			if a.Error != "" {
-- 
2.43.0


From e8b4880aae72c4efec7ab320d9d8e4e9bba4db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 39/60] fix: client: verify the identity that comes with a key
 exchange

An identity obtained from the directory, with a PIN or in an offer of a key
exchange was believed as is.  A forged one could claim to be somebody else, or
use a key or a nick its owner did not sign, and ended up in the address book.
---
 zkclient/kxacceptwindow.go |  6 ++++++
 zkclient/push.go           | 26 ++++++++++++++++++++++----
 zkclient/zkclient.go       | 18 ++++++++++++++----
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index d6fc373..f1d4bdc 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -146,6 +146,12 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
+		// make sure the identity is genuine
+		if !identity.Verify() {
+			ka.Status(w, true, "invalid public identity")
+			return
+		}
+
 		// see if identity exists
 		newIdentity := true
 		if ka.zkc.identityExists(identity.Identity) {
diff --git a/zkclient/push.go b/zkclient/push.go
index 55404b6..d954349 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -159,6 +159,22 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 	return fmt.Errorf("kx step 3 not complete with: %v", nick)
 }
 
+// checkIDKX verifies that an identity that was offered in a key exchange is
+// genuine and that it is the one of whoever sent the offer.
+func (z *ZKC) checkIDKX(p rpc.Push, id *zkidentity.PublicIdentity) error {
+	if bytes.Equal(id.Identity[:], z.id.Public.Identity[:]) {
+		return fmt.Errorf("can't kx with self")
+	}
+	if !bytes.Equal(id.Identity[:], p.From[:]) {
+		return fmt.Errorf("kx identity is not the one of the sender: "+
+			"%x", p.From)
+	}
+	if !id.Verify() {
+		return fmt.Errorf("invalid kx identity: %x", p.From)
+	}
+	return nil
+}
+
 func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 	if p.Payload == nil {
 		return fmt.Errorf("server sent a message without a payload")
@@ -204,8 +220,9 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
 
-		if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
-			return fmt.Errorf("can't kx with self")
+		err = z.checkIDKX(p, &idkx.Identity)
+		if err != nil {
+			return err
 		}
 
 		// create a new ratchet from idkx
@@ -324,8 +341,9 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
 
-	if bytes.Equal(idkx.Identity.Identity[:], z.id.Public.Identity[:]) {
-		return fmt.Errorf("can't kx with self")
+	err = z.checkIDKX(p, &idkx.Identity)
+	if err != nil {
+		return err
 	}
 
 	// create a new ratchet from idkx
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 8bb2992..5ec6c64 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1088,6 +1088,10 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 }
 
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
+	if !id.Verify() {
+		return fmt.Errorf("invalid identity: %x", id.Identity)
+	}
+
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
 		return fmt.Errorf("could not encapsulate key: %v", err)
@@ -1524,12 +1528,12 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
+			z.pendingIdentitiesMutex.Lock()
+			_, pending := z.pendingIdentities[r.Nick]
+			delete(z.pendingIdentities, r.Nick)
+			z.pendingIdentitiesMutex.Unlock()
 			if r.Nick == "" {
 				z.PrintfT(0, "Server did not return nick")
-			} else {
-				z.pendingIdentitiesMutex.Lock()
-				delete(z.pendingIdentities, r.Nick)
-				z.pendingIdentitiesMutex.Unlock()
 			}
 
 			err = z.tagStack.Push(message.Tag)
@@ -1542,6 +1546,12 @@ func (z *ZKC) handleRPC() {
 			if r.Error != "" {
 				// Server error is verbose so just print it
 				z.PrintfT(0, "%v", r.Error)
+			} else if !pending {
+				z.PrintfT(0, "Server returned nick that was "+
+					"not looked up: %v", r.Nick)
+			} else if r.Identity.Nick != r.Nick {
+				z.PrintfT(0, "Server returned nick %v instead "+
+					"of %v", r.Identity.Nick, r.Nick)
 			} else {
 				err = z.step1IDKX(r.Identity)
 				if err != nil {
-- 
2.43.0


From bb67b9609186c26654dbcd3abc87ed0c268666b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 40/60] fix: client: a key exchange that was interrupted could
 not be repeated

An offer was sent before what is needed to complete the exchange was saved,
and the answer could arrive in between.  When an offer, an answer or a lookup
was lost the nick remained 'already in progress' and the identity 'already
exists' for ever, and a reset that was lost could not be repeated.  Save first,
send the same offer again when asked to, and replace what did not complete.
---
 zkclient/acceptclientfingerprint.go | 38 +++++++--------
 zkclient/identity.go                | 15 ++++--
 zkclient/kxacceptwindow.go          | 32 +++---------
 zkclient/zkclient.go                | 75 ++++++++++++++++++++---------
 4 files changed, 89 insertions(+), 71 deletions(-)

diff --git a/zkclient/acceptclientfingerprint.go b/zkclient/acceptclientfingerprint.go
index c7ebecc..1ba5388 100644
--- a/zkclient/acceptclientfingerprint.go
+++ b/zkclient/acceptclientfingerprint.go
@@ -28,9 +28,8 @@ type acceptCFPWindow struct {
 	status        *ttk.Label
 
 	// parameters
-	pid         *zkidentity.PublicIdentity // fetched Public Identity
-	dk          *[32]byte                  // blob derived key
-	newIdentity bool                       // save identity if true
+	pid *zkidentity.PublicIdentity // fetched Public Identity
+	dk  *[32]byte                  // blob derived key
 }
 
 var (
@@ -163,27 +162,18 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 
 		aw.zkc.Dbg(idZKC, "step 2 (cache) idkx")
 
-		// send cache command, step 2 of idkx
-		err = aw.zkc.cache(aw.pid.Identity,
-			blobshare.PackNonce(nonce, encrypted))
-		if err != nil {
-			aw.Status(w, true, "could not send IdentityKX %v", err)
-			return
-		}
-
 		//
-		// if we get here save off identity, half ratchet and derived key
+		// save off identity, half ratchet and derived key before the
+		// other side is able to answer
 		//
 
-		// store public identity if this is a new identity
-		if aw.newIdentity {
-			err = aw.zkc.saveIdentity(*aw.pid)
-			if err != nil {
-				aw.Status(w, true, "Could not save identity: %v",
-					err)
-				return
-			}
+		// store public identity
+		err = aw.zkc.saveIdentity(*aw.pid)
+		if err != nil {
+			aw.Status(w, true, "Could not save identity: %v", err)
+			return
 		}
+		aw.zkc.removeOffer(aw.pid.Identity)
 
 		// save derived key, needed in step 3 of idkx
 		err = aw.zkc.saveKey(aw.dk)
@@ -202,6 +192,14 @@ func (aw *acceptCFPWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		}
 		aw.zkc.ratchetMtx.Unlock()
 
+		// send cache command, step 2 of idkx
+		err = aw.zkc.cache(aw.pid.Identity,
+			blobshare.PackNonce(nonce, encrypted))
+		if err != nil {
+			aw.Status(w, true, "could not send IdentityKX %v", err)
+			return
+		}
+
 		aw.zkc.PrintfT(0, "Accepted user %v nick %v "+
 			"fingerprint %v", aw.pid.Name, aw.pid.Nick,
 			aw.pid.Fingerprint())
diff --git a/zkclient/identity.go b/zkclient/identity.go
index 773c518..42c9d96 100644
--- a/zkclient/identity.go
+++ b/zkclient/identity.go
@@ -24,7 +24,8 @@ const (
 	ratchetFilename     = "ratchet.xdr"
 	halfRatchetFilename = "halfratchet.xdr"
 	identityFilename    = "publicidentity.xdr"
-	nickFilename        = "nick" // only when the nick was changed
+	offerFilename       = "offer" // what was sent along with the half ratchet
+	nickFilename        = "nick"  // only when the nick was changed
 )
 
 // identityExists checks to see if identityFilename exists in the id directory.
@@ -70,6 +71,13 @@ func (z *ZKC) removeRatchet(id [zkidentity.IdentitySize]byte, half bool) error {
 	return os.Remove(path.Join(fullPath, rf))
 }
 
+// removeOffer forgets the offer that belongs to a half ratchet that is about to
+// be replaced.
+func (z *ZKC) removeOffer(id [zkidentity.IdentitySize]byte) {
+	os.Remove(path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id[:]), offerFilename))
+}
+
 func (z *ZKC) loadRatchet(id [zkidentity.IdentitySize]byte,
 	half bool) (*ratchet.Ratchet, error) {
 
@@ -191,8 +199,9 @@ func (z *ZKC) loadIdentity(id [zkidentity.IdentitySize]byte) (*zkidentity.Public
 }
 
 func (z *ZKC) saveIdentity(id zkidentity.PublicIdentity) error {
-	// see if identity exists
-	if z.identityExists(id.Identity) {
+	// see if identity exists, an exchange that did not complete may be
+	// repeated
+	if z.ratchetExists(id.Identity) {
 		return fmt.Errorf("identity already exists")
 	}
 
diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index f1d4bdc..25be913 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -6,9 +6,6 @@ package main
 
 import (
 	"bytes"
-	"encoding/hex"
-	"os"
-	"path"
 
 	"github.com/companyzero/ttk"
 	"github.com/companyzero/zkc/blobshare"
@@ -152,31 +149,18 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			return
 		}
 
-		// see if identity exists
-		newIdentity := true
-		if ka.zkc.identityExists(identity.Identity) {
-			// under ratchet reset conditions there are no files
-			ids := hex.EncodeToString(identity.Identity[:])
-			fullPath := path.Join(ka.zkc.settings.Root, inboundDir, ids)
-			_, err1 := os.Stat(path.Join(fullPath, ratchetFilename))
-			_, err2 := os.Stat(path.Join(fullPath, halfRatchetFilename))
-			if !(err1 == nil || err2 == nil) {
-				// make sure keys are the same
-				ka.zkc.PrintfT(-1, "pretend keys are the same")
-				newIdentity = false // skip saving identity
-			} else {
-				// complain
-				ka.Status(w, true, "identity already exists")
-				return
-			}
+		// see if identity exists, an exchange that did not complete may
+		// be repeated
+		if ka.zkc.ratchetExists(identity.Identity) {
+			ka.Status(w, true, "identity already exists")
+			return
 		}
 
 		// accept fingerprint
 		acfpw := &acceptCFPWindow{
-			zkc:         ka.zkc,
-			pid:         &identity,
-			dk:          dk,
-			newIdentity: newIdentity,
+			zkc: ka.zkc,
+			pid: &identity,
+			dk:  dk,
 		}
 		ka.zkc.ttkACFPW = ttk.NewWindow(acfpw)
 		ttk.Focus(ka.zkc.ttkACFPW)
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 5ec6c64..46c53e0 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -982,6 +982,13 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	z.attachmentSize = as
 	z.directory = dir
 
+	// an answer to a lookup may be gone with the previous session
+	z.pendingIdentitiesMutex.Lock()
+	for k := range z.pendingIdentities {
+		z.pendingIdentities[k] = &time.Time{}
+	}
+	z.pendingIdentitiesMutex.Unlock()
+
 	return &wmsg, nil
 }
 
@@ -1087,14 +1094,45 @@ func (z *ZKC) PrintIdentity(id zkidentity.PublicIdentity) {
 		base64.StdEncoding.EncodeToString(id.Identity[:]))
 }
 
+// step1IDKX offers a key exchange.  Everything that is needed to complete it is
+// saved before the offer is sent.  While an offer has not been answered it can
+// be sent again.
 func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	if !id.Verify() {
 		return fmt.Errorf("invalid identity: %x", id.Identity)
 	}
+	if z.ratchetExists(id.Identity) {
+		return fmt.Errorf("identity already exists")
+	}
+
+	filename := path.Join(z.settings.Root, inboundDir,
+		hex.EncodeToString(id.Identity[:]), offerFilename)
+	payload, err := ioutil.ReadFile(filename)
+	if err != nil || !z.identityExists(id.Identity) {
+		payload, err = z.newOffer(id)
+		if err != nil {
+			return err
+		}
+		err = ioutil.WriteFile(filename, payload, 0600)
+		if err != nil {
+			return fmt.Errorf("could not save offer: %v", err)
+		}
+	}
+
+	err = z.cache(id.Identity, payload)
+	if err != nil {
+		return fmt.Errorf("could not send IdentityKX: %v", err)
+	}
+
+	return nil
+}
 
+// newOffer creates an offer to exchange keys and saves what is needed to
+// complete the exchange.
+func (z *ZKC) newOffer(id zkidentity.PublicIdentity) ([]byte, error) {
 	nc, nk, err := sntrup4591761.Encapsulate(rand.Reader, &id.Key)
 	if err != nil {
-		return fmt.Errorf("could not encapsulate key: %v", err)
+		return nil, fmt.Errorf("could not encapsulate key: %v", err)
 	}
 
 	r := ratchet.New(rand.Reader)
@@ -1106,7 +1144,7 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	kxRatchet := new(ratchet.KeyExchange)
 	err = r.FillKeyExchange(kxRatchet)
 	if err != nil {
-		return fmt.Errorf("could not setup ratchet key: %v", err)
+		return nil, fmt.Errorf("could not setup ratchet key: %v", err)
 	}
 
 	idkx := rpc.IdentityKX{
@@ -1116,12 +1154,12 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	idkxXDR := &bytes.Buffer{}
 	_, err = xdr.Marshal(idkxXDR, idkx)
 	if err != nil {
-		return fmt.Errorf("could not marshal identityKX: %v", err)
+		return nil, fmt.Errorf("could not marshal identityKX: %v", err)
 	}
 
 	encrypted, nonce, err := blobshare.Encrypt(idkxXDR.Bytes(), nk)
 	if err != nil {
-		return fmt.Errorf("could not encrypt IdentityKX: %v", err)
+		return nil, fmt.Errorf("could not encrypt IdentityKX: %v", err)
 	}
 
 	packed := blobshare.PackNonce(nonce, encrypted)
@@ -1130,29 +1168,25 @@ func (z *ZKC) step1IDKX(id zkidentity.PublicIdentity) error {
 	z.Dbg(0, "[InitiateKX]: nk = %v", nk)
 	z.Dbg(0, "[InitiateKX]: nc = %v", nc)
 
-	err = z.cache(id.Identity, payload)
-	if err != nil {
-		return fmt.Errorf("could not send IdentityKX: %v", err)
-	}
-
 	err = z.saveIdentity(id)
 	if err != nil {
-		return fmt.Errorf("could not save identity: %v", err)
+		return nil, fmt.Errorf("could not save identity: %v", err)
 	}
+	z.removeOffer(id.Identity)
 
 	err = z.saveKey(nk)
 	if err != nil {
-		return fmt.Errorf("could not save key: %v", err)
+		return nil, fmt.Errorf("could not save key: %v", err)
 	}
 
 	z.ratchetMtx.Lock()
 	defer z.ratchetMtx.Unlock()
 	err = z.updateRatchet(r, true)
 	if err != nil {
-		return fmt.Errorf("could not save half ratchet: %v", err)
+		return nil, fmt.Errorf("could not save half ratchet: %v", err)
 	}
 
-	return nil
+	return payload, nil
 }
 
 // handleDisabledUser is called when a CRPC was cached but the server replied
@@ -1793,7 +1827,7 @@ func (z *ZKC) find(nick string) error {
 		z.pendingIdentities = make(map[string]*time.Time)
 	}
 
-	if z.pendingIdentities[nick] != nil {
+	if t := z.pendingIdentities[nick]; t != nil && !t.IsZero() {
 		return fmt.Errorf("lookup already in progress")
 	}
 
@@ -1860,19 +1894,12 @@ func (z *ZKC) reset(nick string) error {
 	// always remove half ratchet
 	os.Remove(path.Join(fullPath, halfRatchetFilename))
 
-	// assert any ratchet file exists for sanity
-	ratchet := path.Join(fullPath, ratchetFilename)
-	_, err = os.Stat(ratchet)
-	if err != nil {
-		return fmt.Errorf("ratchet file does not exists for %v", nick)
-	}
-
 	z.FloodfT(nick, REDBOLD+"Ratchet reset initiated with: %v %v"+RESET,
 		nick, ids)
 
-	// delete ratchets from disk
-	err = os.Remove(ratchet)
-	if err != nil {
+	// delete ratchets from disk, there is none if this is repeated
+	err = os.Remove(path.Join(fullPath, ratchetFilename))
+	if err != nil && !os.IsNotExist(err) {
 		z.FloodfT(nick, "could not remove ratchet for %v: %v",
 			nick, err)
 	}
-- 
2.43.0


From 72c26b278ded5351fd79198ccc3f4eca80ad9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 41/60] fix: client: two offers at once, or a reset without
 directory, never completed

When both sides offered a key exchange each took the offer of the other one
for an answer.  Without directory the offer that follows a reset was taken for
one that comes with a PIN.
---
 zkclient/push.go  | 45 ++++++++++++++++++++++++++++++++++-----------
 zkclient/reset.go |  8 ++++++--
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index d954349..1e185c1 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -124,6 +124,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 			return fmt.Errorf("could not remove half ratchet kx %v",
 				err)
 		}
+		z.removeOffer(p.From)
 		z.ratchetMtx.Unlock()
 
 		// sanity
@@ -259,6 +260,8 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 			z.ratchetMtx.Unlock()
 			return fmt.Errorf("could not save ratchet kx %v", err)
 		}
+		_ = z.removeRatchet(p.From, true) // own offer, if any
+		z.removeOffer(p.From)
 		z.ratchetMtx.Unlock()
 
 		// send kxRatchet to the other end
@@ -278,13 +281,13 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 		}
 
 		// send cache command, step 3 of idkx
-		err = z.cache(idkx.Identity.Identity,
+		cacheErr := z.cache(idkx.Identity.Identity,
 			blobshare.PackNonce(nonce, encrypted))
-		if err != nil {
-			return fmt.Errorf("could not send KX %v", err)
-		}
 
 		err = z.addressBookAdd(idkx.Identity)
+		if cacheErr != nil {
+			return fmt.Errorf("could not send KX %v", cacheErr)
+		}
 		if err != nil {
 			return fmt.Errorf("could not add to address book: %v",
 				err)
@@ -346,6 +349,12 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		return err
 	}
 
+	// when both sides made an offer only one of them counts
+	if z.identityExists(p.From) && bytes.Compare(z.id.Public.Identity[:],
+		p.From[:]) > 0 {
+		return fmt.Errorf("key exchange already in progress: %x", p.From)
+	}
+
 	// create a new ratchet from idkx
 	r := ratchet.New(rand.Reader)
 	r.MyPrivateKey = &z.id.PrivateKey
@@ -378,6 +387,8 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 		z.ratchetMtx.Unlock()
 		return fmt.Errorf("could not save ratchet kx %v", err)
 	}
+	_ = z.removeRatchet(p.From, true) // own offer, if any
+	z.removeOffer(p.From)
 	z.ratchetMtx.Unlock()
 
 	// send kxRatchet to the other end
@@ -397,12 +408,12 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 	}
 
 	// send cache command, step 3 of idkx
-	err = z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
-	if err != nil {
-		return fmt.Errorf("could not send KX %v", err)
-	}
+	cacheErr := z.cache(idkx.Identity.Identity, blobshare.PackNonce(nonce, encrypted))
 
 	err = z.addressBookAdd(idkx.Identity)
+	if cacheErr != nil {
+		return fmt.Errorf("could not send KX %v", cacheErr)
+	}
 	if err != nil {
 		return fmt.Errorf("could not add to address book: %v", err)
 	}
@@ -452,16 +463,28 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 		z.Dbg(idZKC, "step 2 (push) idkx")
 		if z.directory {
 			return z.step2IDKX2(msg, p)
-		} else {
-			return z.step2IDKX(msg, p)
 		}
+		// someone whose ratchet was reset offers without a PIN as well
+		_, err := z.loadIdentity(p.From)
+		if err == nil && z.step2IDKX2(msg, p) == nil {
+			return nil
+		}
+		return z.step2IDKX(msg, p)
 	}
 
 	// see if ratchet exists
 	if !z.ratchetExists(p.From) {
 		// step 3 of idkx
 		z.Dbg(idZKC, "step 3 (push) idkx")
-		return z.step3IDKX(msg, p)
+		err := z.step3IDKX(msg, p)
+		if err == nil {
+			return nil
+		}
+		// the other side may have made an offer as well, or again
+		if z.step2IDKX2(msg, p) == nil || z.step2IDKX(msg, p) == nil {
+			return nil
+		}
+		return err
 	}
 
 	//
diff --git a/zkclient/reset.go b/zkclient/reset.go
index ad010be..a64ba48 100644
--- a/zkclient/reset.go
+++ b/zkclient/reset.go
@@ -64,8 +64,12 @@ func (z *ZKC) handleResetRatchet(from [32]byte) error {
 	// delete ratchet from disk
 	os.Remove(path.Join(fullPath, ratchetFilename))
 
-	z.FloodfT(pid.Nick, REDBOLD+"Requesting key exchange with: %v %v"+RESET,
-		pid.Nick, ids)
+	nick := z.nickFromId(from)
+	if nick == "" {
+		nick = pid.Nick
+	}
+	z.FloodfT(nick, REDBOLD+"Requesting key exchange with: %v %v"+RESET,
+		nick, ids)
 
 	return z.step1IDKX(*pid)
 }
-- 
2.43.0


From ee1ccaa22ca82bfc98caa4f2d6b435d0b6455c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 42/60] fix: client: a contact that never got the offer could
 not be reached again

After a restart someone who was only offered a key exchange is in the address
book: looking him up is refused, and a reset means nothing to him.  A reset of
an exchange that did not complete offers it again.
---
 zkclient/zkclient.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 46c53e0..a80b51c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1891,8 +1891,19 @@ func (z *ZKC) reset(nick string) error {
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
-	// always remove half ratchet
-	os.Remove(path.Join(fullPath, halfRatchetFilename))
+	// the other side may not know us when our offer never got there
+	var offer *zkidentity.PublicIdentity
+	_, err = os.Stat(path.Join(fullPath, offerFilename))
+	if (err == nil || z.directory) && z.identityExists(id.Identity) &&
+		!z.ratchetExists(id.Identity) {
+		offer, err = z.loadIdentity(id.Identity)
+		if err != nil {
+			return err
+		}
+	} else {
+		// always remove half ratchet
+		os.Remove(path.Join(fullPath, halfRatchetFilename))
+	}
 
 	z.FloodfT(nick, REDBOLD+"Ratchet reset initiated with: %v %v"+RESET,
 		nick, ids)
@@ -1917,6 +1928,10 @@ func (z *ZKC) reset(nick string) error {
 			Payload: bb.Bytes(),
 		})
 
+	if offer != nil {
+		return z.step1IDKX(*offer)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 46e4cb69e9033b097fef0448fb80ab3d3b5fd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 43/60] fix: client: a reset could be undone by a message that
 was just written

---
 zkclient/reset.go    | 2 ++
 zkclient/zkclient.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/zkclient/reset.go b/zkclient/reset.go
index a64ba48..dab29d5 100644
--- a/zkclient/reset.go
+++ b/zkclient/reset.go
@@ -59,10 +59,12 @@ func (z *ZKC) handleResetRatchet(from [32]byte) error {
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
 	// always remove half ratchet
+	z.ratchetMtx.Lock()
 	os.Remove(path.Join(fullPath, halfRatchetFilename))
 
 	// delete ratchet from disk
 	os.Remove(path.Join(fullPath, ratchetFilename))
+	z.ratchetMtx.Unlock()
 
 	nick := z.nickFromId(from)
 	if nick == "" {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index a80b51c..70a324c 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1909,7 +1909,9 @@ func (z *ZKC) reset(nick string) error {
 		nick, ids)
 
 	// delete ratchets from disk, there is none if this is repeated
+	z.ratchetMtx.Lock()
 	err = os.Remove(path.Join(fullPath, ratchetFilename))
+	z.ratchetMtx.Unlock()
 	if err != nil && !os.IsNotExist(err) {
 		z.FloodfT(nick, "could not remove ratchet for %v: %v",
 			nick, err)
-- 
2.43.0


From 947b7af29e1d8d33a2da32d46c8d357dba0900dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 44/60] fix: client: a kick could be undone or never take
 effect

---
 zkclient/groupchat.go | 86 ++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 62 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index 95a213f..bf7348f 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -299,77 +299,39 @@ func (z *ZKC) gcKick(args []string) error {
 
 	reason := "you have been a bad boy!" // make setable
 
-	got := 0                    // acks seen
-	want := len(gc.Members) - 1 // acks required
-	f := func() {
-		z.Lock()
-		defer z.Unlock()
-
-		// only do stuff on last ack
-		got++
-		if got != want {
-			return
-		}
-
-		z.Dbg(idZKC, "gcKick: callback")
-
-		// find conversation
-		var (
-			k = -1
-			v *conversation
-		)
-		for k, v = range z.conversation {
-			if v.group && v.nick == args[2] {
-				break
-			}
-		}
-
-		// make sure group has not vanished
-		_, found := z.groups[args[2]]
-		if !found {
-			z.PrintfT(0, REDBOLD+
-				"group no longer exists: %v"+
-				RESET, args[2], err)
-			return
-		}
-
-		// set new group in memory
-		z.groups[args[2]] = ngc
-
-		// save to disk
-		err = z._gcSaveDisk(args[2])
-		if err != nil {
-			em := fmt.Sprintf(REDBOLD+
-				"could not save group to disk %v: %v"+
-				RESET, args[2], err)
-			z.PrintfT(0, "%v", em)
-			// echo on conversation window
-			if k > 0 {
-				z.PrintfT(k, "%v", em)
-			}
-			return
-		}
-
-		km := fmt.Sprintf("%v was kicked of group chat %v: %v",
-			z.settings.PmColor+args[3]+RESET,
-			z.settings.GcColor+args[2]+RESET,
-			reason)
-		z.PrintfT(0, "%v", km)
-		// echo on conversation window
-		if k > 0 {
-			z.PrintfT(k, "%v", km)
-		}
+	// The kick takes effect at once, what is sent from here on must not go
+	// to the kickee and what happens to the group next builds on the new
+	// list.
+	z.groups[args[2]] = ngc
+	err = z._gcSaveDisk(args[2])
+	if err != nil {
+		z.groups[args[2]] = gc // unwind
+		return fmt.Errorf("could not save group to disk %v: %v",
+			args[2], err)
 	}
 
 	// send new list to everyone including kickee if still part of the list
 	for j := 1; j < len(gc.Members); j++ {
 		z.Dbg(idZKC, "sending kick %v to: %x", args[2], gc.Members[j])
-		z.scheduleCRPCCB(true, &gc.Members[j], rpc.GroupKick{
+		z.scheduleCRPC(true, &gc.Members[j], rpc.GroupKick{
 			Member:       id.Identity,
 			Reason:       reason,
 			Parted:       false,
 			NewGroupList: ngc,
-		}, f)
+		})
+	}
+
+	km := fmt.Sprintf("%v was kicked of group chat %v: %v",
+		z.settings.PmColor+args[3]+RESET,
+		z.settings.GcColor+args[2]+RESET,
+		reason)
+	z.PrintfT(0, "%v", km)
+	// echo on conversation window
+	for k, v := range z.conversation {
+		if v.group && v.nick == args[2] {
+			z.PrintfT(k, "%v", km)
+			break
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3ff6e7af64b62ba9f384fc65e8ca22b62f527f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 45/60] fix: client: do not show or accept group lists that are
 forged or outdated

---
 zkclient/push.go     | 62 ++++++++++++++++++++++++++++----------------
 zkclient/zkclient.go | 29 ++++++++++++++++++---
 2 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 1e185c1..948ebe7 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -979,6 +979,13 @@ func (z *ZKC) handleGroupKick(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("kick/part was not sent by group chat " +
 			"administrator")
 	}
+	err := z._checkGroupList(p.From, gk.NewGroupList)
+	if err == nil {
+		err = z._checkGeneration(gk.NewGroupList)
+	}
+	if err != nil {
+		return fmt.Errorf("invalid kick/part: %v", err)
+	}
 
 	if bytes.Equal(gk.Member[:], z.id.Public.Identity[:]) {
 		if gk.Parted {
@@ -1208,49 +1215,60 @@ func (z *ZKC) warnGroupListMissingKeys(print bool, gl rpc.GroupList) error {
 func (z *ZKC) handleGroupList(msg rpc.Message, p rpc.Push,
 	gl rpc.GroupList) error {
 
-	z.PrintfT(0, "Received new group chat list (%v): %v",
-		gl.Generation,
-		z.settings.GcColor+gl.Name+RESET)
-	// print diff
-	z.diffGroupListPrint(gl)
-
-	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gl)
-	if err != nil {
-		z.PrintfT(0, "could not warn about missing keys: %v", err)
+	// make sure we got this from list administrator
+	z.RLock()
+	err := z._checkGroupList(p.From, gl)
+	if err == nil {
+		err = z._checkGeneration(gl)
 	}
-
-	// update grouplist
-	err = z.updateGroupList(p.From, gl)
+	z.RUnlock()
 	if err != nil {
-		z.PrintfT(0, "could not update group chat list: %v %v"+
-			z.settings.GcColor+gl.Name+RESET,
-			err)
+		return fmt.Errorf("could not update group chat list: %v", err)
 	}
 
-	return nil
+	z.PrintfT(0, "Received new group chat list (%v): %v",
+		gl.Generation,
+		z.settings.GcColor+gl.Name+RESET)
+
+	return z.newGroupList(p.From, gl)
 }
 
 func (z *ZKC) handleGroupUpdate(msg rpc.Message, p rpc.Push,
 	gu rpc.GroupUpdate) error {
 
+	// make sure we got this from list administrator
+	z.RLock()
+	err := z._checkGroupList(p.From, gu.NewGroupList)
+	z.RUnlock()
+	if err != nil {
+		return fmt.Errorf("could not update group chat list: %v", err)
+	}
+
 	z.PrintfT(0, "Received group chat update (%v): %v",
 		gu.NewGroupList.Generation,
 		z.settings.GcColor+gu.NewGroupList.Name+RESET)
+
+	return z.newGroupList(p.From, gu.NewGroupList)
+}
+
+// newGroupList shows what changes and replaces the list of a group.
+func (z *ZKC) newGroupList(from [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+
 	// print diff
-	z.diffGroupListPrint(gu.NewGroupList)
+	z.diffGroupListPrint(gl)
 
 	// warn about missing keys
-	err := z.warnGroupListMissingKeys(true, gu.NewGroupList)
+	err := z.warnGroupListMissingKeys(true, gl)
 	if err != nil {
 		z.PrintfT(0, "could not warn about missing keys: %v", err)
 	}
 
 	// update grouplist
-	err = z.updateGroupList(p.From, gu.NewGroupList)
+	err = z.updateGroupList(from, gl)
 	if err != nil {
-		z.PrintfT(0, "could not update group chat list: %v %v"+
-			z.settings.GcColor+gu.NewGroupList.Name+RESET,
+		z.PrintfT(0, "could not update group chat list: %v %v",
+			z.settings.GcColor+gl.Name+RESET,
 			err)
 	}
 
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 70a324c..ce23093 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2024,7 +2024,8 @@ func (z *ZKC) updateGroupList(id [zkidentity.IdentitySize]byte,
 	return z._updateGroupList(id, gl)
 }
 
-func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
+// _checkGroupList verifies that id may replace the current list of a group.
+func (z *ZKC) _checkGroupList(id [zkidentity.IdentitySize]byte,
 	gl rpc.GroupList) error {
 
 	group, found := z.groups[gl.Name]
@@ -2039,13 +2040,35 @@ func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
 		return errNotAdmin
 	}
 
-	// Warn if generation is no moving forward
+	// the administrator can't be replaced
+	if len(gl.Members) == 0 || !bytes.Equal(gl.Members[0][:], id[:]) {
+		return errNotAdmin
+	}
+
+	return nil
+}
+
+// _checkGeneration verifies that a list is newer than the current one, the
+// server may deliver out of order.
+func (z *ZKC) _checkGeneration(gl rpc.GroupList) error {
+	group := z.groups[gl.Name]
 	if gl.Generation <= group.Generation {
-		z.Warn(idRPC, "received illegal grouplist generation: %v %v %v",
+		return fmt.Errorf("received illegal grouplist generation: "+
+			"%v %v %v",
 			gl.Name,
 			group.Generation,
 			gl.Generation)
 	}
+	return nil
+}
+
+func (z *ZKC) _updateGroupList(id [zkidentity.IdentitySize]byte,
+	gl rpc.GroupList) error {
+
+	err := z._checkGroupList(id, gl)
+	if err != nil {
+		return err
+	}
 
 	z.groups[gl.Name] = gl
 	return z._gcSaveDisk(gl.Name)
-- 
2.43.0


From 65627a8dcdda7c85879b6cb228c016ec1dac9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 46/60] fix: client: group invitations did not expire, got lost
 or could not be used

---
 zkclient/groupchat.go    | 37 +++++++++++++++++++++++++++----------
 zkclient/groupinvites.go | 30 +++++++++++++++++++++---------
 zkclient/push.go         |  9 +++++++++
 3 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/zkclient/groupchat.go b/zkclient/groupchat.go
index bf7348f..675527e 100644
--- a/zkclient/groupchat.go
+++ b/zkclient/groupchat.go
@@ -21,12 +21,17 @@ import (
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
-const validLetters = "abcdefghijklmnopqrstuvwyz" +
-	"ABCDEFGHIJKLMNOPQRSTUVWYZ" +
+const validLetters = "abcdefghijklmnopqrstuvwxyz" +
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZ" +
 	"1234567890" +
 	"_-@."
 
 func validName(name string) error {
+	// names are file names as well
+	if name == "" || name == "." || name == ".." {
+		return fmt.Errorf("invalid name")
+	}
+
 	var found bool
 	for _, c := range []byte(name) {
 		found = false
@@ -88,9 +93,14 @@ func (z *ZKC) gcNew(args []string) error {
 		return fmt.Errorf("usage: /gc new <name>")
 	}
 
+	err := validName(args[2])
+	if err != nil {
+		return err
+	}
+
 	// see if gc already exists on disk
 	filename := path.Join(z.settings.Root, groupchatDir, args[2])
-	_, err := os.Stat(filename)
+	_, err = os.Stat(filename)
 	if err == nil {
 		return fmt.Errorf("groupchat already exists on disk")
 	}
@@ -174,6 +184,11 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("usage: /gc join <group> <token>")
 	}
 
+	err := validName(args[2])
+	if err != nil {
+		return err
+	}
+
 	token, err := strconv.ParseUint(args[3], 10, 64)
 	if err != nil {
 		return fmt.Errorf("invalid token: %v", err)
@@ -193,12 +208,6 @@ func (z *ZKC) gcJoin(args []string) error {
 		return fmt.Errorf("join not found: %v %v", args[2], args[3])
 	}
 
-	// send RPC
-	z.scheduleCRPC(true, &from, rpc.GroupJoin{
-		Name:  args[2],
-		Token: token,
-	})
-
 	// save group with just name and administrator
 	z.groups[args[2]] = rpc.GroupList{
 		Name:    args[2],
@@ -207,9 +216,17 @@ func (z *ZKC) gcJoin(args []string) error {
 
 	err = z._gcSaveDisk(args[2])
 	if err != nil {
-		return fmt.Errorf("invalid token: %v", err)
+		delete(z.groups, args[2]) // unwind
+		return fmt.Errorf("could not save group chat %v: %v",
+			args[2], err)
 	}
 
+	// send RPC
+	z.scheduleCRPC(true, &from, rpc.GroupJoin{
+		Name:  args[2],
+		Token: token,
+	})
+
 	// delete join from table
 	err = z.delJoin(args[2], token)
 	if err != nil {
diff --git a/zkclient/groupinvites.go b/zkclient/groupinvites.go
index 98f7b0e..d09c2ce 100644
--- a/zkclient/groupinvites.go
+++ b/zkclient/groupinvites.go
@@ -142,10 +142,13 @@ func (z *ZKC) inviteDBAdd(id [zkidentity.IdentitySize]byte, description string,
 		return nil, fmt.Errorf("could not open invites db: %v", err)
 	}
 
-	_, err = idb.Get(group.Name, ids)
+	r, err := idb.Get(group.Name, ids)
 	if err == nil {
 		// if invite is expired create a new one
-		return nil, fmt.Errorf("already invited, XXX add expiration check here")
+		invite, err := unmarshalInvite(r)
+		if err == nil && time.Now().Unix() < invite.Expires {
+			return nil, fmt.Errorf("already invited")
+		}
 	}
 
 	// create new token
@@ -212,9 +215,13 @@ func (z *ZKC) joinDBAdd(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("could not open joins db: %v", err)
 	}
 
-	_, err = jdb.Get(gi.Name, froms)
+	r, err := jdb.Get(gi.Name, froms)
 	if err == nil {
-		return fmt.Errorf("join already seen: %v", gi.Name)
+		// whoever invites again doesn't accept an older invite any more
+		invite, err := unmarshalInvite(r)
+		if err == nil && invite.Token == gi.Token {
+			return fmt.Errorf("join already seen: %v", gi.Name)
+		}
 	}
 
 	// always create table since it is a no-op if it exists
@@ -287,9 +294,6 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 	}
 
 	records := jdb.Records(group)
-	if len(records) != 1 {
-		return fmt.Errorf("invalid join table")
-	}
 	for id, r := range records {
 		// we search for record to make sure everything is cool
 		invite, err := unmarshalInvite(r)
@@ -303,8 +307,12 @@ func (z *ZKC) delJoin(group string, token uint64) error {
 			continue
 		}
 
-		// delete table
-		err = jdb.DelTable(group)
+		// delete record, and the table with the last one
+		if len(records) == 1 {
+			err = jdb.DelTable(group)
+		} else {
+			err = jdb.Del(group, id)
+		}
 		if err != nil {
 			return err
 		}
@@ -345,6 +353,10 @@ func (z *ZKC) delInvite(from [zkidentity.IdentitySize]byte,
 		return fmt.Errorf("invalid token %v %v: %v",
 			gj.Name, froms, gj.Token)
 	}
+	if time.Now().Unix() >= invite.Expires {
+		return fmt.Errorf("invite expired %v %v",
+			gj.Name, froms)
+	}
 
 	// delete record
 	err = idb.Del(gj.Name, froms)
diff --git a/zkclient/push.go b/zkclient/push.go
index 948ebe7..05cd06a 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -769,8 +769,17 @@ func (z *ZKC) handleGroupInvite(msg rpc.Message, p rpc.Push,
 		return nil
 	}
 
+	err = validName(gi.Name)
+	if err != nil {
+		z.PrintfT(0, "%v invited you to a group chat with an %v",
+			z.settings.PmColor+id.Nick+RESET, err)
+		return nil
+	}
+
 	// add invite to join database
+	z.Lock()
 	err = z.joinDBAdd(p.From, gi)
+	z.Unlock()
 	if err != nil {
 		z.PrintfT(0, "could not join %v: %v",
 			gi.Name, err)
-- 
2.43.0


From 4cfae2a817b69e74ac1338a698fdccd31010e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 47/60] fix: client: a group list that arrives took the user to
 another window

---
 zkclient/push.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 05cd06a..ab745f8 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -1148,7 +1148,10 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		return
 	}
 
-	z.query(ng.Name)
+	_, win, err := z.groupConversation(ng.Name)
+	if err != nil {
+		return
+	}
 
 	for _, v := range min {
 		if bytes.Equal(v[:], z.id.Public.Identity[:]) {
@@ -1156,7 +1159,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 			z.PrintfT(0, "- %v %v (self)",
 				z.id.Public.Fingerprint(),
 				z.settings.PmColor+z.id.Public.Nick+RESET)
-			z.PrintfT(-1, "you left the channel")
+			z.PrintfT(win, "you left the channel")
 			continue
 		}
 		id, err := z.ab.FindIdentity(v)
@@ -1167,7 +1170,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		z.PrintfT(0, "- %v %v",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
-		z.PrintfT(-1, "%v %v has left the channel",
+		z.PrintfT(win, "%v %v has left the channel",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
 	}
@@ -1178,7 +1181,8 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 			z.PrintfT(0, "+ %v %v (self)",
 				z.id.Public.Fingerprint(),
 				z.settings.PmColor+z.id.Public.Nick+RESET)
-			z.PrintfT(-1, "you joined the channel")
+			z.PrintfT(win, "you joined the channel")
+			z.focus(win)
 			continue
 		}
 		id, err := z.ab.FindIdentity(v)
@@ -1189,7 +1193,7 @@ func (z *ZKC) diffGroupListPrint(ng rpc.GroupList) {
 		z.PrintfT(0, "+ %v %v",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
-		z.PrintfT(-1, "%v %v has joined the channel",
+		z.PrintfT(win, "%v %v has joined the channel",
 			id.Fingerprint(),
 			z.settings.PmColor+id.Nick+RESET)
 	}
-- 
2.43.0


From 1271e0f9df07edba32c6b5112679d80f8a95591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 48/60] fix: client: a file could be saved outside spool, or
 lost when two were sent

---
 zkclient/chunk.go | 123 ++++++++++++++++++++++++++++++----------------
 zkclient/send.go  |   1 +
 2 files changed, 81 insertions(+), 43 deletions(-)

diff --git a/zkclient/chunk.go b/zkclient/chunk.go
index 02043ab..8c79138 100644
--- a/zkclient/chunk.go
+++ b/zkclient/chunk.go
@@ -6,17 +6,54 @@ package main
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/companyzero/zkc/rpc"
+	"github.com/companyzero/zkc/zkidentity"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/marcopeereboom/goutil"
 )
 
-const descriptor = "descriptor.xdr"
+const descriptorSuffix = ".xdr"
+
+// chunkFiles returns the directory of the files that id is sending, the one
+// that the content of the file with the provided digest goes to and the one
+// that describes it.
+func (z *ZKC) chunkFiles(id [zkidentity.IdentitySize]byte,
+	digest [sha256.Size]byte) (dir, spool, desc string) {
+
+	dir = path.Join(z.settings.Root, spoolDir, hex.EncodeToString(id[:]))
+	spool = path.Join(dir, hex.EncodeToString(digest[:]))
+	return dir, spool, spool + descriptorSuffix
+}
+
+// chunkFilename returns the path that a file that was received is saved to.
+// The name comes from the sender, therefore it may not lead out of the spool
+// directory nor take the name of a directory that chunkFiles returns.
+func (z *ZKC) chunkFilename(filename string) (string, error) {
+	filename = filepath.Base(filename)
+	switch filename {
+	case ".", "..", string(filepath.Separator):
+		return "", fmt.Errorf("invalid filename")
+	}
+	id, err := hex.DecodeString(filename)
+	if err == nil && len(id) == zkidentity.IdentitySize {
+		filename = "1" + filename
+	}
+	for {
+		fullpath := path.Join(z.settings.Root, spoolDir, filename)
+		_, err := os.Lstat(fullpath)
+		if err != nil {
+			return fullpath, nil
+		}
+		filename = "1" + filename
+	}
+}
 
 func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
@@ -32,12 +69,23 @@ func (z *ZKC) handleChunkNew(msg rpc.Message, p rpc.Push,
 func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	cn rpc.ChunkNew) error {
 
+	// nick
+	pid, err := z.ab.FindIdentity(p.From)
+	if err != nil {
+		return err
+	}
+
+	_, err = z.chunkFilename(cn.Filename)
+	if err != nil {
+		return fmt.Errorf("incoming file from %v: %v", pid.Nick, err)
+	}
+
 	// create landing zone
-	dir := path.Join(z.settings.Root, spoolDir,
-		hex.EncodeToString(p.From[:]))
-	spool := path.Join(dir, hex.EncodeToString(cn.Digest[:]))
-	desc := path.Join(dir, descriptor)
-	os.MkdirAll(dir, 0700)
+	dir, spool, desc := z.chunkFiles(p.From, cn.Digest)
+	err = os.MkdirAll(dir, 0700)
+	if err != nil {
+		return err
+	}
 
 	// write out encoded chunk information
 	f, err := os.Create(desc)
@@ -59,11 +107,6 @@ func (z *ZKC) doHandleChunkNew(msg rpc.Message, p rpc.Push,
 	}
 	defer fs.Close()
 
-	// nick
-	pid, err := z.ab.FindIdentity(p.From)
-	if err != nil {
-		return err
-	}
 	// notify user a file transfer is in flight
 	z.FloodfT(pid.Nick, "File transfer initiated by: %v filename: %v "+
 		"size: %v description: %v",
@@ -86,10 +129,19 @@ func (z *ZKC) handleChunk(msg rpc.Message, p rpc.Push,
 func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	c rpc.Chunk) error {
 
-	dir := path.Join(z.settings.Root, spoolDir,
-		hex.EncodeToString(p.From[:]))
-	spool := path.Join(dir, hex.EncodeToString(c.Digest[:]))
-	desc := path.Join(dir, descriptor)
+	_, spool, desc := z.chunkFiles(p.From, c.Digest)
+
+	// what is it a chunk of
+	f, err := os.Open(desc)
+	if err != nil {
+		return err
+	}
+	var cn rpc.ChunkNew
+	_, err = xdr.NewDecoder(f).Decode(&cn)
+	f.Close() // windows
+	if err != nil {
+		return err
+	}
 
 	// open spool
 	fs, err := os.OpenFile(spool, os.O_WRONLY|os.O_APPEND, 0600)
@@ -103,15 +155,20 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 		fs.Close()
 		return err
 	}
-	if fi.Size() != int64(c.Offset) {
+	if uint64(fi.Size()) != c.Offset {
 		fs.Close()
 		return fmt.Errorf("unexpected offset got %v wanted %v",
-			fi.Size(), c.Offset)
+			c.Offset, fi.Size())
+	}
+	if c.Offset > cn.Size || uint64(len(c.Payload)) > cn.Size-c.Offset {
+		fs.Close()
+		return fmt.Errorf("file exceeds its size: %v", cn.Size)
 	}
 
 	// write payload
 	_, err = fs.Write(c.Payload)
 	if err != nil {
+		fs.Close()
 		return err
 	}
 
@@ -123,22 +180,8 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 	}
 	fs.Close() // windows
 
-	// determine if this is the last chunk
-	f, err := os.Open(desc)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
-	d := xdr.NewDecoder(f)
-	var cn rpc.ChunkNew
-	_, err = d.Decode(&cn)
-	if err != nil {
-		return err
-	}
-
 	// check sizes
-	if fi.Size() == int64(cn.Size) {
+	if uint64(fi.Size()) == cn.Size {
 		// nick
 		pid, err := z.ab.FindIdentity(p.From)
 		if err != nil {
@@ -152,22 +195,16 @@ func (z *ZKC) doHandleChunk(msg rpc.Message, p rpc.Push,
 				spool, err)
 		}
 		if !bytes.Equal(fd[:], cn.Digest[:]) {
+			os.Remove(spool)
+			os.Remove(desc)
 			return fmt.Errorf("Incoming file from %v corrupt: %v",
 				pid.Nick, cn.Filename)
 		}
 
-		var fullpath, filename string
-		filename = cn.Filename
-		for {
-			fullpath = path.Join(z.settings.Root, spoolDir,
-				filename)
-			_, err = os.Stat(fullpath)
-			if err != nil {
-				break
-			}
-			filename = "1" + filename
+		fullpath, err := z.chunkFilename(cn.Filename)
+		if err != nil {
+			return err
 		}
-
 		err = os.Rename(spool, fullpath)
 		if err != nil {
 			return err
diff --git a/zkclient/send.go b/zkclient/send.go
index 6e83c94..fcbd1b1 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -64,6 +64,7 @@ func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
 		return fmt.Errorf("could not stat %v: %v", filename, err)
 	}
 	if uint64(fi.Size()) > z.attachmentSize {
+		f.Close()
 		return fmt.Errorf("file too large %v: %v, max allowed %v",
 			filename, fi.Size(), z.attachmentSize)
 	}
-- 
2.43.0


From 5d9cddc501b130847f0b70d575b8b5b10d2cfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 49/60] fix: client: files with the same content that were sent
 together got lost

---
 zkclient/send.go     | 14 ++++++++++----
 zkclient/zkclient.go |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/zkclient/send.go b/zkclient/send.go
index fcbd1b1..bc850d2 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -28,7 +28,7 @@ func FileMIME(f *os.File) (string, error) {
 
 	// determine mime
 	b := make([]byte, 512) // all that's needed for mime per doco
-	_, err = f.Read(b)
+	n, err := f.Read(b)
 	if err != nil {
 		return "", err
 	}
@@ -39,7 +39,7 @@ func FileMIME(f *os.File) (string, error) {
 		return "", err
 	}
 
-	return http.DetectContentType(b), nil
+	return http.DetectContentType(b[:n]), nil
 }
 
 func (z *ZKC) send(id [zkidentity.IdentitySize]byte, nick, filename,
@@ -123,8 +123,14 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 		return
 	}
 
-	// reason to believe we are going to be successful so send chunk rpc
-	z.scheduleCRPC(true, &id, *cn)
+	// one file at a time; the other side can't tell chunks of files with the
+	// same content apart
+	z.sendMtx.Lock()
+	defer z.sendMtx.Unlock()
+
+	// reason to believe we are going to be successful so send chunk rpc,
+	// which may not overtake the chunks of the previous file
+	z.scheduleCRPC(false, &id, *cn)
 
 	// start chunking file
 	for offset := 0; ; {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index ce23093..fdf2bb3 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -693,6 +693,7 @@ type ZKC struct {
 	// locks itself
 	ab *addressbook.AddressBook
 
+	sendMtx                sync.Mutex // one file is sent at a time
 	ratchetMtx             sync.Mutex
 	pendingIdentitiesMutex sync.Mutex
 	pendingIdentities      map[string]*time.Time
-- 
2.43.0


From 2e3db14d429b915db1f081201e04dbe0c5e94ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 50/60] fix: debug: percent signs in what is logged were taken
 for verbs

---
 debug/debug.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debug/debug.go b/debug/debug.go
index 5f35f4b..8be3790 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -30,7 +30,7 @@ type Debug struct {
 
 func (d *Debug) Log(id int, format string, args ...interface{}) {
 	s := ttk.Unescape(fmt.Sprintf(format, args...))
-	d.log(id, "[LOG] ", s)
+	d.log(id, "[LOG] ", "%s", s)
 }
 
 func (d *Debug) Info(id int, format string, args ...interface{}) {
-- 
2.43.0


From 8c2118096c0c2b9b5e7946081fc94b345cf7f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 51/60] fix: client: a message could crash the client or use up
 its memory

Data that does not decompress, lengths that are not there and what
decompresses to more than it could be.
---
 zkclient/kxacceptwindow.go |  3 +--
 zkclient/push.go           | 40 +++++++++++++++++++++-----------------
 zkclient/welcome.go        |  2 +-
 zkclient/zkclient.go       | 36 ++++++++++++++++++++++------------
 4 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/zkclient/kxacceptwindow.go b/zkclient/kxacceptwindow.go
index 25be913..e58077e 100644
--- a/zkclient/kxacceptwindow.go
+++ b/zkclient/kxacceptwindow.go
@@ -11,7 +11,6 @@ import (
 	"github.com/companyzero/zkc/blobshare"
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkidentity"
-	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/nsf/termbox-go"
 )
 
@@ -130,7 +129,7 @@ func (ka *kxAcceptWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 		// unmarshal into public identity
 		var identity zkidentity.PublicIdentity
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &identity)
+		_, err = ka.zkc.unmarshal(br, &identity)
 		if err != nil {
 			ka.Status(w, true, "Could not unmarshal public "+
 				"identity")
diff --git a/zkclient/push.go b/zkclient/push.go
index ab745f8..53c6e54 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -88,7 +88,7 @@ func (z *ZKC) step3IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var kx rpc.KX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &kx)
+		_, err = z.unmarshal(br, &kx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal KX")
 		}
@@ -216,7 +216,7 @@ func (z *ZKC) step2IDKX(msg rpc.Message, p rpc.Push) error {
 
 		var idkx rpc.IdentityKX
 		br := bytes.NewReader(decrypted)
-		_, err = xdr.Unmarshal(br, &idkx)
+		_, err = z.unmarshal(br, &idkx)
 		if err != nil {
 			return fmt.Errorf("could not unmarshal IdentityKX")
 		}
@@ -339,7 +339,7 @@ func (z *ZKC) step2IDKX2(msg rpc.Message, p rpc.Push) error {
 
 	var idkx rpc.IdentityKX
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &idkx)
+	_, err = z.unmarshal(br, &idkx)
 	if err != nil {
 		return fmt.Errorf("could not unmarshal IdentityKX")
 	}
@@ -437,7 +437,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	if msg.Cleartext {
 		var pc rpc.ProxyCmd
 		brProxy := bytes.NewReader(p.Payload)
-		_, err := xdr.Unmarshal(brProxy, &pc)
+		_, err := z.unmarshal(brProxy, &pc)
 		if err == nil && pc.Command == rpc.ProxyCmdResetRatchet {
 			// We got a ratchet reset command
 			nick := z.nickFromId(p.From)
@@ -519,7 +519,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	// decode CRPC
 	var crpc rpc.CRPC
 	br := bytes.NewReader(decrypted)
-	_, err = xdr.Unmarshal(br, &crpc)
+	_, err = z.unmarshal(br, &crpc)
 	if err != nil {
 		return fmt.Errorf("unmarshal crpc failed")
 	}
@@ -530,16 +530,20 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 	case rpc.CRPCCompNone:
 		rd = br
 	case rpc.CRPCCompZLIB:
-		rd, _ = zlib.NewReader(br)
+		rd, err = zlib.NewReader(br)
+		if err != nil {
+			return fmt.Errorf("decompress crpc failed")
+		}
 	default:
 		return fmt.Errorf("invalid compression: %v", crpc.Compression)
 	}
+	rd = io.LimitReader(rd, int64(z.maxPayload()))
 
 	// decode Payload
 	switch crpc.Command {
 	case rpc.CRPCCmdPrivateMessage:
 		var pm rpc.PrivateMessage
-		_, err = xdr.Unmarshal(rd, &pm)
+		_, err = z.unmarshal(rd, &pm)
 		if err != nil {
 			return fmt.Errorf("unmarshal private message")
 		}
@@ -555,7 +559,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupInvite:
 		var gi rpc.GroupInvite
-		_, err = xdr.Unmarshal(rd, &gi)
+		_, err = z.unmarshal(rd, &gi)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat invite")
 		}
@@ -571,7 +575,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupJoin:
 		var gj rpc.GroupJoin
-		_, err = xdr.Unmarshal(rd, &gj)
+		_, err = z.unmarshal(rd, &gj)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat join")
 		}
@@ -587,7 +591,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKill:
 		var gk rpc.GroupKill
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kill")
 		}
@@ -603,7 +607,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupKick:
 		var gk rpc.GroupKick
-		_, err = xdr.Unmarshal(rd, &gk)
+		_, err = z.unmarshal(rd, &gk)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat kick")
 		}
@@ -619,7 +623,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupPart:
 		var gp rpc.GroupPart
-		_, err = xdr.Unmarshal(rd, &gp)
+		_, err = z.unmarshal(rd, &gp)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat part")
 		}
@@ -635,7 +639,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupList:
 		var gl rpc.GroupList
-		_, err = xdr.Unmarshal(rd, &gl)
+		_, err = z.unmarshal(rd, &gl)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat list")
 		}
@@ -651,7 +655,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupUpdate:
 		var gu rpc.GroupUpdate
-		_, err = xdr.Unmarshal(rd, &gu)
+		_, err = z.unmarshal(rd, &gu)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat update")
 		}
@@ -667,7 +671,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdGroupMessage:
 		var gm rpc.GroupMessage
-		_, err = xdr.Unmarshal(rd, &gm)
+		_, err = z.unmarshal(rd, &gm)
 		if err != nil {
 			return fmt.Errorf("unmarshal group chat message")
 		}
@@ -683,7 +687,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunkNew:
 		var cn rpc.ChunkNew
-		_, err = xdr.Unmarshal(rd, &cn)
+		_, err = z.unmarshal(rd, &cn)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk new")
 		}
@@ -699,7 +703,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdChunk:
 		var c rpc.Chunk
-		_, err = xdr.Unmarshal(rd, &c)
+		_, err = z.unmarshal(rd, &c)
 		if err != nil {
 			return fmt.Errorf("unmarshal chunk")
 		}
@@ -714,7 +718,7 @@ func (z *ZKC) handlePush(msg rpc.Message, p rpc.Push) error {
 
 	case rpc.CRPCCmdJanitorMessage:
 		var jm rpc.JanitorMessage
-		_, err = xdr.Unmarshal(rd, &jm)
+		_, err = z.unmarshal(rd, &jm)
 		if err != nil {
 			return fmt.Errorf("unmarshal janitor message")
 		}
diff --git a/zkclient/welcome.go b/zkclient/welcome.go
index 702d95c..6cac89e 100644
--- a/zkclient/welcome.go
+++ b/zkclient/welcome.go
@@ -168,7 +168,7 @@ func (ww *welcomeWindow) KeyHandler(w *ttk.Window, k ttk.Key) {
 			}
 
 			// get server identity
-			_, err = xdr.Unmarshal(conn, &pid)
+			_, err = ww.zkc.unmarshal(conn, &pid)
 			if err != nil {
 				ww.Status(w, true,
 					"Could not obtain remote identity")
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index fdf2bb3..8b6fd21 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -12,6 +12,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net"
 	"net/http"
@@ -828,7 +829,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 
 	// unmarshal header
 	br := bytes.NewReader(cmd)
-	_, err = xdr.Unmarshal(br, &command)
+	_, err = z.unmarshal(br, &command)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome header failed")
 	}
@@ -839,7 +840,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	case rpc.SessionCmdUnwelcome:
 		// unmarshal payload
 		var umsg rpc.Unwelcome
-		_, err = xdr.Unmarshal(br, &umsg)
+		_, err = z.unmarshal(br, &umsg)
 		if err != nil {
 			return nil, fmt.Errorf("unmarshal Unwelcome payload " +
 				"failed")
@@ -855,7 +856,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	}
 
 	// unmarshal payload
-	_, err = xdr.Unmarshal(br, &wmsg)
+	_, err = z.unmarshal(br, &wmsg)
 	if err != nil {
 		return nil, fmt.Errorf("unmarshal Welcome payload failed")
 	}
@@ -1376,7 +1377,7 @@ func (z *ZKC) handleRPC() {
 
 		// unmarshal header
 		br := bytes.NewReader(cmd)
-		_, err = xdr.Unmarshal(br, &message)
+		_, err = z.unmarshal(br, &message)
 		if err != nil {
 			exitError = fmt.Errorf("unmarshal header failed")
 			return
@@ -1392,7 +1393,7 @@ func (z *ZKC) handleRPC() {
 		switch message.Command {
 		case rpc.TaggedCmdPong:
 			var p rpc.Pong
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Pong")
 				return
@@ -1416,7 +1417,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousReply:
 			var r rpc.RendezvousReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal RendezvousReply")
 				return
@@ -1435,7 +1436,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdRendezvousPullReply:
 			var r rpc.RendezvousPullReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"RendezvousPullReply")
@@ -1456,7 +1457,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdPush:
 			var p rpc.Push
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal Push")
 				return
@@ -1507,7 +1508,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdAcknowledge:
 			var a rpc.Acknowledge
-			_, err = xdr.Unmarshal(br, &a)
+			_, err = z.unmarshal(br, &a)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"Acknowledge")
@@ -1556,7 +1557,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdIdentityFindReply:
 			var r rpc.IdentityFindReply
-			_, err = xdr.Unmarshal(br, &r)
+			_, err = z.unmarshal(br, &r)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"IdentityFindReply")
@@ -1596,7 +1597,7 @@ func (z *ZKC) handleRPC() {
 
 		case rpc.TaggedCmdProxyReply:
 			var p rpc.ProxyReply
-			_, err = xdr.Unmarshal(br, &p)
+			_, err = z.unmarshal(br, &p)
 			if err != nil {
 				exitError = fmt.Errorf("unmarshal " +
 					"ProxyReply")
@@ -1939,6 +1940,17 @@ func (z *ZKC) reset(nick string) error {
 }
 
 // writeMessage marshals and sends encrypted message to server.
+// maxPayload returns the size that what is sent to someone may not exceed
+// before it is compressed.
+func (z *ZKC) maxPayload() uint {
+	return 2 * z.msgSize
+}
+
+// unmarshal performs a limited xdr Unmarshal operation.
+func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
+	return xdr.UnmarshalLimited(r, v, z.maxPayload())
+}
+
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 	// the session may end at any time, hold on to the current one
 	z.RLock()
@@ -2167,7 +2179,7 @@ func (z *ZKC) finalizeAccountCreation(conn net.Conn, cs *tls.ConnectionState,
 
 	// obtain answer
 	var car rpc.CreateAccountReply
-	_, err = xdr.Unmarshal(conn, &car)
+	_, err = z.unmarshal(conn, &car)
 	if err != nil {
 		return fmt.Errorf("Could not obtain create account reply")
 	}
-- 
2.43.0


From 486e01e270fdd5b45a9dd1a3c502525c103c1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 52/60] fix: client: a group message could crash the client

Upper case letters may take more or less room than lower case ones.
---
 zkclient/push.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/zkclient/push.go b/zkclient/push.go
index 53c6e54..8e77314 100644
--- a/zkclient/push.go
+++ b/zkclient/push.go
@@ -15,6 +15,7 @@ import (
 	"path"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/companyzero/sntrup4591761"
 	"github.com/companyzero/zkc/blobshare"
@@ -1083,6 +1084,11 @@ func (z *ZKC) handleGroupKill(msg rpc.Message, p rpc.Push,
 		return fmt.Errorf("group chat not found: %v", gk.Name)
 	}
 
+	// sanity
+	if len(group.Members) == 0 {
+		return fmt.Errorf("handleGroupKill: group chat corrupt")
+	}
+
 	if !bytes.Equal(group.Members[0][:], p.From[:]) {
 		return fmt.Errorf("spoofed group chat kill command")
 	}
@@ -1292,6 +1298,28 @@ func (z *ZKC) newGroupList(from [zkidentity.IdentitySize]byte,
 	return nil
 }
 
+// mention returns where nick is mentioned in text, regardless of case, and the
+// length of it there.  It returns -1 if it isn't.
+func mention(text, nick string) (int, int) {
+	up := strings.ToUpper(nick)
+	if up == "" {
+		return -1, 0
+	}
+	// the length of a character may depend on its case
+	for i := range text {
+		s, j := "", i
+		for j < len(text) && len(s) < len(up) {
+			r, w := utf8.DecodeRuneInString(text[j:])
+			s += strings.ToUpper(string(r))
+			j += w
+		}
+		if s == up {
+			return i, j - i
+		}
+	}
+	return -1, 0
+}
+
 func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 	gm rpc.GroupMessage) error {
 
@@ -1338,8 +1366,7 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 
 	// see if we were mentioned
 	s := gm.Message
-	if x := strings.Index(strings.ToUpper(gm.Message),
-		strings.ToUpper(z.id.Public.Nick)); x != -1 &&
+	if x, l := mention(gm.Message, z.id.Public.Nick); x != -1 &&
 		gm.Mode == rpc.MessageModeNormal {
 
 		z.Lock()
@@ -1349,9 +1376,8 @@ func (z *ZKC) handleGroupMessage(msg rpc.Message, p rpc.Push,
 		z.Unlock()
 
 		// color me brah
-		s = gm.Message[:x] + MAGENTABOLD +
-			gm.Message[x:x+len(z.id.Public.Nick)] + RESET +
-			gm.Message[x+len(z.id.Public.Nick):]
+		s = gm.Message[:x] + MAGENTABOLD + gm.Message[x:x+l] + RESET +
+			gm.Message[x+l:]
 	}
 
 	var n string
-- 
2.43.0


From 9e7b1d89fc2cf5777a4fa2544b10df2e5e953008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 53/60] fix: client: tags and limits that make no sense could
 crash the client

The message size that the server announces now applies right away, and not
only after the client reconnects.
---
 zkclient/send.go     |  6 +++++-
 zkclient/zkclient.go | 30 ++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/zkclient/send.go b/zkclient/send.go
index bc850d2..b94a8a8 100644
--- a/zkclient/send.go
+++ b/zkclient/send.go
@@ -133,8 +133,12 @@ func (z *ZKC) completeSend(nick string, f *os.File,
 	z.scheduleCRPC(false, &id, *cn)
 
 	// start chunking file
+	size := cn.ChunkSize
+	if size > cn.Size {
+		size = cn.Size
+	}
 	for offset := 0; ; {
-		chunk := make([]byte, z.chunkSize)
+		chunk := make([]byte, size)
 		count, err := f.Read(chunk)
 		if err != nil {
 			if errors.Is(err, io.EOF) {
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 8b6fd21..2e65b43 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	_ "net/http/pprof"
@@ -939,7 +940,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if td == -1 {
 		return nil, fmt.Errorf("server did not provide tag depth")
 	}
-	if td > tagDepth {
+	if td < 1 || td > tagDepth {
 		return nil, fmt.Errorf("invalid tag depth: %v", td)
 	}
 
@@ -967,6 +968,9 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	if ms < cs {
 		return nil, fmt.Errorf("message size < chunk size")
 	}
+	if ms > math.MaxInt32 {
+		return nil, fmt.Errorf("invalid message size: %v", ms)
+	}
 
 	// directory mode
 	if dir {
@@ -981,6 +985,7 @@ func (z *ZKC) welcomePhase(kx *session.KX) (*rpc.Welcome, error) {
 	z.online = true
 	z.chunkSize = cs
 	z.msgSize = uint(ms)
+	kx.MaxMessageSize = z.msgSize
 	z.attachmentSize = as
 	z.directory = dir
 
@@ -1258,6 +1263,14 @@ func (z *ZKC) handleDisabledUser(id [zkidentity.IdentitySize]byte) {
 	}
 }
 
+// freeTag makes a tag that the server is done with available again.
+func (z *ZKC) freeTag(tag uint32) error {
+	if tag >= uint32(z.tagStack.Depth()) {
+		return fmt.Errorf("tag out of range: %v", tag)
+	}
+	return z.tagStack.Push(tag)
+}
+
 // handleRPC deals with all incoming RPC commands.  It shall be called as a go
 // routine.
 func (z *ZKC) handleRPC() {
@@ -1340,6 +1353,7 @@ func (z *ZKC) handleRPC() {
 						z.kx.Close()
 						return
 					}
+					continue
 				}
 				//z.PrintfT(0, "ping %v", tag)
 				z.write.Lock()
@@ -1400,7 +1414,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			// free tag
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("Pong invalid tag: %v",
 					message.Tag)
@@ -1427,7 +1441,7 @@ func (z *ZKC) handleRPC() {
 			} else {
 				z.PrintfT(0, "key exchange PIN: %v", r.Token)
 			}
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("RendezvousReply "+
 					"invalid tag: %v", message.Tag)
@@ -1448,7 +1462,7 @@ func (z *ZKC) handleRPC() {
 				z.kaw.rendezvousPullReply = &r
 				ttk.Focus(z.ttkKAW)
 			}
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("RendezvousPullReply "+
 					"invalid tag: %v", message.Tag)
@@ -1516,7 +1530,7 @@ func (z *ZKC) handleRPC() {
 			}
 
 			z.Lock()
-			if message.Tag > uint32(len(z.tagCallback)) {
+			if message.Tag >= uint32(len(z.tagCallback)) {
 				exitError = fmt.Errorf("Acknowledge "+
 					"invalid tag: %v", message.Tag)
 				z.Unlock()
@@ -1527,7 +1541,7 @@ func (z *ZKC) handleRPC() {
 			z.Unlock()
 
 			// push tag
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("Push "+
 					"invalid tag: %v", message.Tag)
@@ -1572,7 +1586,7 @@ func (z *ZKC) handleRPC() {
 				z.PrintfT(0, "Server did not return nick")
 			}
 
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("IdentityFindReply "+
 					"invalid tag: %v", message.Tag)
@@ -1604,7 +1618,7 @@ func (z *ZKC) handleRPC() {
 				return
 			}
 
-			err = z.tagStack.Push(message.Tag)
+			err = z.freeTag(message.Tag)
 			if err != nil {
 				exitError = fmt.Errorf("ProxyReply "+
 					"invalid tag: %v", message.Tag)
-- 
2.43.0


From fdfaa4d800c72e57089165eeb173f5872411ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:39 +0000
Subject: [PATCH 54/60] fix: text from others could forge lines, send escape
 sequences or hang the client

---
 debug/debug.go          |  4 +-
 zkclient/addressbook.go |  4 ++
 zkclient/mainwindow.go  |  4 +-
 zkclient/zkclient.go    | 15 +++----
 zkutil/clean.go         | 87 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 103 insertions(+), 11 deletions(-)
 create mode 100644 zkutil/clean.go

diff --git a/debug/debug.go b/debug/debug.go
index 8be3790..fd71fc0 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -11,7 +11,7 @@ import (
 	"sync"
 	"time"
 
-	"github.com/companyzero/ttk"
+	"github.com/companyzero/zkc/zkutil"
 )
 
 var (
@@ -29,7 +29,7 @@ type Debug struct {
 }
 
 func (d *Debug) Log(id int, format string, args ...interface{}) {
-	s := ttk.Unescape(fmt.Sprintf(format, args...))
+	s := zkutil.Unescape(fmt.Sprintf(format, args...))
 	d.log(id, "[LOG] ", "%s", s)
 }
 
diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index f352ba0..5ebc5af 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -16,6 +16,7 @@ import (
 	"github.com/companyzero/zkc/rpc"
 	"github.com/companyzero/zkc/zkclient/addressbook"
 	"github.com/companyzero/zkc/zkidentity"
+	"github.com/companyzero/zkc/zkutil"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 )
 
@@ -69,6 +70,9 @@ func (z *ZKC) addressBookAdd(id zkidentity.PublicIdentity) error {
 	if b, err := ioutil.ReadFile(filename); err == nil {
 		id.Nick = string(b)
 	}
+	if id.Nick = zkutil.CleanNick(id.Nick); id.Nick == "" {
+		id.Nick = hex.EncodeToString(id.Identity[:])
+	}
 
 	nick, err := z.ab.Add(id)
 	if errors.Is(err, addressbook.ErrDuplicateNick) {
diff --git a/zkclient/mainwindow.go b/zkclient/mainwindow.go
index 4a3993d..0f3bda6 100644
--- a/zkclient/mainwindow.go
+++ b/zkclient/mainwindow.go
@@ -281,7 +281,7 @@ func (mw *mainWindow) welcomeMessage() {
 
 	mw.zkc.PrintfT(0, "Welcome to Zero Knowledge Communications!")
 	mw.zkc.PrintfT(0, "")
-	mw.zkc.PrintfT(0, "zkclient %s (%s) protocol version %d\n",
+	mw.zkc.PrintfT(0, "zkclient %s (%s) protocol version %d",
 		zkutil.Version(), runtime.Version(), rpc.ProtocolVersion)
 	mw.zkc.PrintfT(0, "")
 	mw.zkc.PrintfT(0, "Your fingerprint is: %v",
@@ -689,7 +689,7 @@ func (mw *mainWindow) action(cmd string) error {
 		return nil
 
 	case cmdVersion:
-		mw.zkc.PrintfT(-1, "zkclient %s (%s) protocol version %d\n",
+		mw.zkc.PrintfT(-1, "zkclient %s (%s) protocol version %d",
 			zkutil.Version(), runtime.Version(),
 			rpc.ProtocolVersion)
 		return nil
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 2e65b43..fa5c98f 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -38,6 +38,7 @@ import (
 	"github.com/companyzero/zkc/tools"
 	"github.com/companyzero/zkc/zkclient/addressbook"
 	"github.com/companyzero/zkc/zkidentity"
+	"github.com/companyzero/zkc/zkutil"
 	"github.com/davecgh/go-spew/spew"
 	xdr "github.com/davecgh/go-xdr/xdr2"
 	"github.com/nsf/termbox-go"
@@ -151,7 +152,7 @@ func (z *ZKC) FloodfT(nick, format string, args ...interface{}) {
 }
 
 func (z *ZKC) printf(id int, ts time.Time, localTs bool, format string, args ...interface{}) {
-	output := fmt.Sprintf(format, args...)
+	output := zkutil.Clean(fmt.Sprintf(format, args...))
 	ttk.Queue(func() {
 		z.Lock()
 		z._print(id, ts, localTs, output)
@@ -163,7 +164,7 @@ func (z *ZKC) printf(id int, ts time.Time, localTs bool, format string, args ...
 // printC prints in the window of a conversation, wherever it is by the time it
 // is printed.  A window that was closed is opened again.
 func (z *ZKC) printC(c *conversation, ts time.Time, localTs bool, format string, args ...interface{}) {
-	output := fmt.Sprintf(format, args...)
+	output := zkutil.Clean(fmt.Sprintf(format, args...))
 	ttk.Queue(func() {
 		z.Lock()
 		id := -1
@@ -267,7 +268,7 @@ func (z *ZKC) log(id int, format string, args ...interface{}) {
 	}
 	defer f.Close()
 
-	fmt.Fprintf(f, "%v\n", ttk.Unescape(output))
+	fmt.Fprintf(f, "%v\n", zkutil.Unescape(output))
 }
 
 func (z *ZKC) focus(id int) {
@@ -1036,7 +1037,6 @@ func (z *ZKC) goOnline() (*rpc.Welcome, error) {
 	return welcome, nil
 }
 
-//
 func (z *ZKC) goOnlineAndPrint() error {
 	welcome, err := z.goOnline()
 	switch {
@@ -1507,8 +1507,9 @@ func (z *ZKC) handleRPC() {
 				// fatal, we are trying to ack so that the
 				// server deletes the command and maybe we can
 				// recover
-				z.Error(idZKC, ms)
-				z.PrintfT(0, REDBOLD+ms+RESET)
+				ms = zkutil.Clean(ms)
+				z.Error(idZKC, "%v", zkutil.Unescape(ms))
+				z.PrintfT(0, REDBOLD+"%v"+RESET, ms)
 				z.PrintfT(0, "deleting remote message")
 			}
 
@@ -1953,7 +1954,6 @@ func (z *ZKC) reset(nick string) error {
 	return nil
 }
 
-// writeMessage marshals and sends encrypted message to server.
 // maxPayload returns the size that what is sent to someone may not exceed
 // before it is compressed.
 func (z *ZKC) maxPayload() uint {
@@ -1965,6 +1965,7 @@ func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
 	return xdr.UnmarshalLimited(r, v, z.maxPayload())
 }
 
+// writeMessage marshals and sends encrypted message to server.
 func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
 	// the session may end at any time, hold on to the current one
 	z.RLock()
diff --git a/zkutil/clean.go b/zkutil/clean.go
new file mode 100644
index 0000000..6e42b92
--- /dev/null
+++ b/zkutil/clean.go
@@ -0,0 +1,87 @@
+// Copyright (c) 2020 Company 0, LLC.
+// Use of this source code is governed by an ISC
+// license that can be found in the LICENSE file.
+
+package zkutil
+
+import (
+	"strings"
+	"unicode"
+	"unicode/utf8"
+
+	"github.com/companyzero/ttk"
+)
+
+// maxColor is the longest color escape sequence that is recognized.
+const maxColor = 32
+
+// color returns the length of the color escape sequence s starts with.
+func color(s string) int {
+	if !strings.HasPrefix(s, "\x1b[") {
+		return 0
+	}
+	if len(s) > maxColor {
+		s = s[:maxColor]
+	}
+	_, skip, err := ttk.DecodeColor(s)
+	if err != nil {
+		return 0
+	}
+	return skip
+}
+
+// Clean replaces everything in s that would not remain on a single line of a
+// terminal or of a file.  Color escape sequences are retained.
+func Clean(s string) string {
+	var sb strings.Builder
+	for i := 0; i < len(s); {
+		n := color(s[i:])
+		if n != 0 {
+			sb.WriteString(s[i : i+n])
+			i += n
+			continue
+		}
+		r, width := utf8.DecodeRuneInString(s[i:])
+		if unicode.IsControl(r) && r != '\t' {
+			r = ' '
+		}
+		sb.WriteRune(r)
+		i += width
+	}
+	return sb.String()
+}
+
+// Unescape removes color escape sequences.
+func Unescape(s string) string {
+	var sb strings.Builder
+	for i := 0; i < len(s); {
+		n := color(s[i:])
+		if n != 0 {
+			i += n
+			continue
+		}
+		r, width := utf8.DecodeRuneInString(s[i:])
+		sb.WriteRune(r)
+		i += width
+	}
+	return sb.String()
+}
+
+// CleanNick replaces everything in a nick that could make it look like
+// something else or that can not be a part of a filename.
+func CleanNick(nick string) string {
+	const max = 64
+
+	var sb strings.Builder
+	for _, r := range nick {
+		if unicode.IsControl(r) || r == utf8.RuneError ||
+			strings.ContainsRune("/\\<>", r) {
+			r = '_'
+		}
+		if sb.Len()+utf8.RuneLen(r) > max {
+			break
+		}
+		sb.WriteRune(r)
+	}
+	return sb.String()
+}
-- 
2.43.0


From 5a3ccd4d05483aa53169e32f5c0d4d387ba5087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 55/60] fix: client: a message that is too large held up
 everything after it

---
 zkclient/msg.go      | 20 +++++++++++++++++++-
 zkclient/zkclient.go | 14 ++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 8f5f649..82564ac 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -357,6 +358,11 @@ func (z *ZKC) compress(payload interface{}) ([]byte, string, error) {
 		return nil, "", fmt.Errorf("invalid type %T", payload)
 	}
 
+	// the other side does not accept more than this
+	if uint(bb.Len()) > z.maxPayload() {
+		return nil, "", session.ErrOverflow
+	}
+
 	// see if it is worth compressing
 	var (
 		w  io.Writer
@@ -383,7 +389,7 @@ func (z *ZKC) crpc(r *ratchet.Ratchet, payload interface{}) ([]byte, error) {
 
 	p, compression, err := z.compress(payload)
 	if err != nil {
-		return nil, fmt.Errorf("compression failed: %v ", err)
+		return nil, fmt.Errorf("compression failed: %w", err)
 	}
 	cmd.Compression = compression
 
@@ -474,6 +480,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 
 	// compose RPC
 	m, err := z.crpc(r, payload)
+	if errors.Is(err, session.ErrOverflow) {
+		// it can never be sent, don't hold up everything else
+		z.PrintfT(0, REDBOLD+"Message to %v cannot be delivered: %v"+
+			RESET, z.nickFromId(id), session.ErrOverflow)
+		return nil
+	}
 	if err != nil {
 		return fmt.Errorf("could not compose %T: %v", payload, err)
 	}
@@ -520,6 +532,12 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			return fmt.Errorf("could not push tag, internal "+
 				"state corrupt, please quit: %v %v", err, err2)
 		}
+		if errors.Is(err, session.ErrOverflow) {
+			z.PrintfT(0, REDBOLD+"Message to %v cannot be "+
+				"delivered: %v"+RESET, z.nickFromId(id),
+				session.ErrOverflow)
+			return nil
+		}
 
 		return err
 	}
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index fa5c98f..6fecdc7 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -2002,7 +2002,17 @@ func (z *ZKC) writePRPC(m *wireMsg) error {
 		msg.Tag = tag
 	}
 
-	return z.writeSession(kx, &msg, m.payload)
+	err := z.writeSession(kx, &msg, m.payload)
+	if errors.Is(err, session.ErrOverflow) {
+		// it can never be sent, don't hold up everything else
+		z.PrintfT(0, REDBOLD+"%v"+RESET, err)
+		switch msg.Command {
+		case rpc.TaggedCmdAcknowledge:
+			return nil
+		}
+		return z.tagStack.Push(msg.Tag)
+	}
+	return err
 }
 
 // writeSession marshals and sends encrypted message in the provided session.
@@ -2029,7 +2039,7 @@ func (z *ZKC) writeSession(kx *session.KX, msg *rpc.Message,
 
 	err = kx.Write(bb.Bytes())
 	if err != nil {
-		return fmt.Errorf("could not write %v: %v",
+		return fmt.Errorf("could not write %v: %w",
 			msg.Command, err)
 	}
 
-- 
2.43.0


From 6473df18668f74ec79068a997699b6396470289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 56/60] fix: client: a message could be sent with a tag of the
 previous session

---
 zkclient/msg.go      | 18 +++++++++++-------
 zkclient/zkclient.go | 13 -------------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/zkclient/msg.go b/zkclient/msg.go
index 82564ac..ce443c7 100644
--- a/zkclient/msg.go
+++ b/zkclient/msg.go
@@ -457,8 +457,12 @@ func (z *ZKC) isOnline() bool {
 }
 
 func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f func()) error {
-	// best effort to detect if we are offline
-	if !z.isOnline() {
+	// the session may end at any time, hold on to the current one
+	z.RLock()
+	kx, online := z.kx, z.online
+	tagStack, tagCallback := z.tagStack, z.tagCallback
+	z.RUnlock()
+	if !online {
 		return fmt.Errorf("not online")
 	}
 
@@ -491,13 +495,13 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 	}
 
 	// message
-	tag, err := z.tagStack.Pop()
+	tag, err := tagStack.Pop()
 	if err != nil {
 		return fmt.Errorf("could not obtain tag: %v", err)
 	}
 
 	z.Lock()
-	z.tagCallback[tag] = &cb{
+	tagCallback[tag] = &cb{
 		callback: f,
 		to:       *r.TheirIdentityPublic,
 	}
@@ -516,17 +520,17 @@ func (z *ZKC) cacheCRPC(id [zkidentity.IdentitySize]byte, payload interface{}, f
 			spew.Sdump(payload))
 	}
 
-	err = z.writeMessage(msg,
+	err = z.writeSession(kx, msg,
 		rpc.Cache{
 			To:      *r.TheirIdentityPublic,
 			Payload: m,
 		})
 	if err != nil {
 		z.Lock()
-		z.tagCallback[tag] = nil
+		tagCallback[tag] = nil
 		z.Unlock()
 		// return tag
-		err2 := z.tagStack.Push(tag)
+		err2 := tagStack.Push(tag)
 		if err2 != nil {
 			// we really are in deep shit now
 			return fmt.Errorf("could not push tag, internal "+
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 6fecdc7..718dfbd 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1965,19 +1965,6 @@ func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
 	return xdr.UnmarshalLimited(r, v, z.maxPayload())
 }
 
-// writeMessage marshals and sends encrypted message to server.
-func (z *ZKC) writeMessage(msg *rpc.Message, payload interface{}) error {
-	// the session may end at any time, hold on to the current one
-	z.RLock()
-	kx, online := z.kx, z.online
-	z.RUnlock()
-	if !online {
-		return fmt.Errorf("not online")
-	}
-
-	return z.writeSession(kx, msg, payload)
-}
-
 // writePRPC sends a PRPC.  The tag of a PRPC means something only in the
 // session it was scheduled in.  If that session is gone there is nothing left
 // to acknowledge or to ping, anything else needs a tag of the current session.
-- 
2.43.0


From 0398017a5737e44371c65f0168faa1c241753d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 57/60] fix: client: requests could wait forever for a tag that
 one behind them held

---
 zkclient/zkclient.go | 73 +++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 52 deletions(-)

diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 718dfbd..11a2444 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -1268,7 +1268,11 @@ func (z *ZKC) freeTag(tag uint32) error {
 	if tag >= uint32(z.tagStack.Depth()) {
 		return fmt.Errorf("tag out of range: %v", tag)
 	}
-	return z.tagStack.Push(tag)
+	err := z.tagStack.Push(tag)
+	if err == nil {
+		z.resume()
+	}
+	return err
 }
 
 // handleRPC deals with all incoming RPC commands.  It shall be called as a go
@@ -1548,7 +1552,6 @@ func (z *ZKC) handleRPC() {
 					"invalid tag: %v", message.Tag)
 				return
 			}
-			z.resume()
 
 			// print error if we got one
 			if a.Error != "" {
@@ -1654,15 +1657,9 @@ func (z *ZKC) cache(to [32]byte, blob []byte) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdCache,
-			Tag:     tag,
 		},
 		rpc.Cache{
 			To:      to,
@@ -1677,15 +1674,9 @@ func (z *ZKC) rendezvous(blob []byte) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvous,
-			Tag:     tag,
 		},
 		rpc.Rendezvous{
 			Blob:       blob,
@@ -1802,14 +1793,9 @@ func (z *ZKC) fetch(pin string) error {
 		return fmt.Errorf("not online")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdRendezvousPull,
-			Tag:     tag,
 		},
 		rpc.RendezvousPull{
 			Token: pin,
@@ -1848,15 +1834,9 @@ func (z *ZKC) find(nick string) error {
 		return fmt.Errorf("lookup already in progress")
 	}
 
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdIdentityFind,
-			Tag:     tag,
 		},
 		rpc.IdentityFind{
 			Nick: nick,
@@ -1892,19 +1872,6 @@ func (z *ZKC) reset(nick string) error {
 			err)
 	}
 
-	// Pop tag early because we are going to de deleting important files.
-	// If something goes wrong we must push the tab back onto the stack.
-	returnTag := true // assume failure
-	tag, err := z.tagStack.Pop()
-	if err != nil {
-		return fmt.Errorf("could not obtain tag: %v", err)
-	}
-	defer func() {
-		if returnTag {
-			z.tagStack.Push(tag)
-		}
-	}()
-
 	ids := hex.EncodeToString(id.Identity[:])
 	fullPath := path.Join(z.settings.Root, inboundDir, ids)
 
@@ -1934,13 +1901,10 @@ func (z *ZKC) reset(nick string) error {
 			nick, err)
 	}
 
-	returnTag = false // we no longer need to return the tag
-
 	// try to tell the other side the bad news
 	z.schedulePRPC(true,
 		rpc.Message{
 			Command: rpc.TaggedCmdProxy,
-			Tag:     tag,
 		},
 		rpc.Proxy{
 			To:      id.Identity,
@@ -1965,9 +1929,10 @@ func (z *ZKC) unmarshal(r io.Reader, v interface{}) (int, error) {
 	return xdr.UnmarshalLimited(r, v, z.maxPayload())
 }
 
-// writePRPC sends a PRPC.  The tag of a PRPC means something only in the
-// session it was scheduled in.  If that session is gone there is nothing left
-// to acknowledge or to ping, anything else needs a tag of the current session.
+// writePRPC sends a PRPC.  An acknowledgement and a ping come with a tag, that
+// means something only in the session they were scheduled in.  Anything else
+// gets a tag here; if it was given one before, it might be waiting behind a
+// CRPC that waits for that tag.
 func (z *ZKC) writePRPC(m *wireMsg) error {
 	z.RLock()
 	kx, online, tagStack := z.kx, z.online, z.tagStack
@@ -1977,11 +1942,12 @@ func (z *ZKC) writePRPC(m *wireMsg) error {
 	}
 
 	msg := m.msg
-	if m.kx != kx {
-		switch msg.Command {
-		case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+	switch msg.Command {
+	case rpc.TaggedCmdAcknowledge, rpc.TaggedCmdPing:
+		if m.kx != kx {
 			return nil
 		}
+	default:
 		tag, err := tagStack.Pop()
 		if err != nil {
 			return fmt.Errorf("could not obtain tag: %v", err)
@@ -1990,14 +1956,17 @@ func (z *ZKC) writePRPC(m *wireMsg) error {
 	}
 
 	err := z.writeSession(kx, &msg, m.payload)
+	if err != nil && msg.Command != rpc.TaggedCmdAcknowledge {
+		// return tag
+		err2 := tagStack.Push(msg.Tag)
+		if err2 != nil {
+			return fmt.Errorf("could not push tag: %v %v", err, err2)
+		}
+	}
 	if errors.Is(err, session.ErrOverflow) {
 		// it can never be sent, don't hold up everything else
 		z.PrintfT(0, REDBOLD+"%v"+RESET, err)
-		switch msg.Command {
-		case rpc.TaggedCmdAcknowledge:
-			return nil
-		}
-		return z.tagStack.Push(msg.Tag)
+		return nil
 	}
 	return err
 }
-- 
2.43.0


From 077df7afa67bba1a09067740c1a3ef62f4d766c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 58/60] fix: client: a key of a key exchange got lost when two
 exchanges began at once

---
 zkclient/blobkeys.go | 9 +++++----
 zkclient/zkclient.go | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/zkclient/blobkeys.go b/zkclient/blobkeys.go
index b6fb428..3abbf50 100644
--- a/zkclient/blobkeys.go
+++ b/zkclient/blobkeys.go
@@ -52,6 +52,9 @@ func (z *ZKC) pruneKey(kdb *inidb.INIDB) {
 }
 
 func (z *ZKC) saveKey(key *[32]byte) error {
+	z.blobKeysMtx.Lock()
+	defer z.blobKeysMtx.Unlock()
+
 	// open db
 	kdb, err := inidb.New(path.Join(z.settings.Root, blobKeysPath),
 		true, 10)
@@ -61,13 +64,11 @@ func (z *ZKC) saveKey(key *[32]byte) error {
 
 	defer z.pruneKey(kdb) // kill all expired keys
 
-	for {
-		k := time.Now().Add(expiration).Unix()
+	// keys are called after when they expire, pick the next free second
+	for k := time.Now().Add(expiration).Unix(); ; k++ {
 		keyTS := strconv.FormatInt(k, 10)
-		// see if it exists
 		_, err := kdb.Get("", keyTS)
 		if err == nil {
-			// really shouldnt happen
 			continue
 		}
 
diff --git a/zkclient/zkclient.go b/zkclient/zkclient.go
index 11a2444..dde5c87 100644
--- a/zkclient/zkclient.go
+++ b/zkclient/zkclient.go
@@ -697,6 +697,7 @@ type ZKC struct {
 	ab *addressbook.AddressBook
 
 	sendMtx                sync.Mutex // one file is sent at a time
+	blobKeysMtx            sync.Mutex
 	ratchetMtx             sync.Mutex
 	pendingIdentitiesMutex sync.Mutex
 	pendingIdentities      map[string]*time.Time
-- 
2.43.0


From d6a4f031a9ddf0c212b16ffb2305d1ec72d35df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 59/60] fix: client: deleting a contact raced with saving its
 ratchet, which could remain

---
 zkclient/addressbook.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index 5ebc5af..8f5a38d 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -39,7 +39,9 @@ func (z *ZKC) addressBookDel(nick string) error {
 
 		filename := path.Join(z.settings.Root, inboundDir,
 			hex.EncodeToString(id.Identity[:]))
+		z.ratchetMtx.Lock() // may still be being saved
 		err = os.RemoveAll(filename)
+		z.ratchetMtx.Unlock()
 		if err != nil {
 			z.PrintfT(-1, REDBOLD+"delete %v: %v"+RESET, nick, err)
 			return
-- 
2.43.0


From e806968f53459d4726f1b07f985ed897655064f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 60/60] fix: client: a contact without completed key exchange
 could not be deleted

---
 zkclient/addressbook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkclient/addressbook.go b/zkclient/addressbook.go
index 8f5a38d..43c453b 100644
--- a/zkclient/addressbook.go
+++ b/zkclient/addressbook.go
@@ -49,6 +49,12 @@ func (z *ZKC) addressBookDel(nick string) error {
 		z.PrintfT(-1, "deleted user: %v", nick)
 	}
 
+	if !z.ratchetExists(id.Identity) {
+		// there is no way to tell the other side
+		f()
+		return nil
+	}
+
 	// try to tell the other side
 	z.scheduleCRPCCB(true, &id.Identity, rpc.JanitorMessage{
 		Command: rpc.CRPCJanitorDeleted,
-- 
2.43.0

