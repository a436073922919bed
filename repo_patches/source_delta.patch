From 4e2f5c93226174133b266c78d19307008ce25f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 01/80] fix: msg: count only the missing message keys against
 the limit

A one-sided conversation of 400 messages made Decrypt refuse every further
message, because all keys up to the message were counted as requested, not
just the missing ones.
---
 msg/decrypt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..f47045e 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -358,8 +358,9 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", err
 		}
 		// prevent denial of service attack by very large h.SenderMessageCount
-		numOfKeys := h.SenderMessageCount / args.NumOfKeys
-		if h.SenderMessageCount%args.NumOfKeys > 0 {
+		missing := h.SenderMessageCount - n + 1 // the first n keys exist already
+		numOfKeys := missing / args.NumOfKeys
+		if missing%args.NumOfKeys > 0 {
 			numOfKeys++
 		}
 		numOfKeys *= args.NumOfKeys
-- 
2.43.0


From 90f1ceb2797d7372549720a5c617a00030074e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/80] fix: msg: refuse sender UIDs that do not belong to the
 stated sender

Decrypt took the sender from the header without comparing it to the UID
message of the sender in it, so any sender could name another user.
---
 msg/decrypt.go | 12 ++++++++++++
 msg/errors.go  |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index f47045e..1223d87 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -542,6 +542,18 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", uidRes.err
 	}
 
+	// make sure the sender UID belongs to the sender given in the header
+	if err := uidRes.msg.Check(); err != nil {
+		return "", "", err
+	}
+	if err := uidRes.msg.VerifySelfSig(); err != nil {
+		return "", "", err
+	}
+	if uidRes.msg.Identity() != h.SenderIdentity ||
+		uidRes.msg.PubHash() != h.SenderIdentityPub.HASH {
+		return "", "", log.Error(ErrWrongSender)
+	}
+
 	// verify signature, if necessary
 	if contentHash != nil {
 		if !ed25519.Verify(uidRes.msg.PublicSigKey32()[:], contentHash, sigBuf[:]) {
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..c256a7a 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -58,3 +58,7 @@ var ErrReflection = errors.New("msg: reflection attack detected")
 
 // ErrStatusError is raised when a decryption operation lead to a StatusCode StatusError.
 var ErrStatusError = errors.New("msg: StatusCode == StatusError")
+
+// ErrWrongSender is raised when the sender UID message does not belong to the
+// sender given in the header.
+var ErrWrongSender = errors.New("msg: sender UID doesn't match sender in header")
-- 
2.43.0


From 8b71661504f245a05c73466e8e2d9a00ff07277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 03/80] fix: keydb: attach new message keys to the session they
 belong to

---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..27c285d 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get ID of new session
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get ID of existing session
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From 6a88cee27652a0925c5ab3a978e580fe1d80daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 04/80] fix: keydb: return the public key init stored last

---
 keydb/keydb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keydb/keydb.go b/keydb/keydb.go
index 8da80ae..5e2a4fd 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -121,7 +121,7 @@ CREATE TABLE SessionKeys (
 	addPrivateKeyInitQuery    = "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
 	getPrivateKeyInitQuery    = "SELECT KeyInit, SigPubKey, PRIVKEY FROM PrivateKeyInits WHERE PUBKEYHASH=?;"
 	addPublicKeyInitQuery     = "INSERT INTO PublicKeyInits (SIGKEYHASH, KeyInit) VALUES (?, ?);"
-	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=?;"
+	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=? ORDER BY ID DESC;"
 	addPublicUIDQuery         = "INSERT INTO PublicUIDs (IDENTITY, MSGCOUNT, POSITION, UIDMessage) VALUES (?, ?, ?, ?);"
 	getPublicUIDQuery         = "SELECT UIDMessage, POSITION FROM PublicUIDs WHERE IDENTITY=? and POSITION<=? ORDER BY POSITION DESC;"
 	getSessionQuery           = "SELECT RootKeyHash, ChainKey, NumOfKeys FROM Sessions WHERE SessionKey=?;"
-- 
2.43.0


From 69274d0facae4bdb280c0fc891478ad2d9f04a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 05/80] fix: encdb: sync the key file before it is relied on

---
 encdb/keyfile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index de0e34a..1261bfc 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -90,7 +90,8 @@ func writeKeyfile(filename string, passphrase []byte, iter int, key []byte) erro
 	if _, err := keyfile.Write(encKey); err != nil {
 		return err
 	}
-	return nil
+	// make sure the key is on disk before the keyfile is relied on
+	return keyfile.Sync()
 }
 
 // generateKeyFile generates a key file with the given filename that contains a
-- 
2.43.0


From b1bba65c7ae38860942fb538c09ab16dc3e1525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:16 +0000
Subject: [PATCH 06/80] fix: cryptengine, ctrlengine: copy passphrases out of
 the scanner's buffer

---
 cryptengine/db.go | 10 +++++-----
 ctrlengine/db.go  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index ec47338..19a9280 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -25,7 +25,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase []byte
 	defer bzero.Bytes(passphrase)
 	if scanner.Scan() {
-		passphrase = scanner.Bytes()
+		passphrase = append([]byte(nil), scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -34,7 +34,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase2 []byte
 	defer bzero.Bytes(passphrase2)
 	if scanner.Scan() {
-		passphrase2 = scanner.Bytes()
+		passphrase2 = append([]byte(nil), scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -56,7 +56,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var oldPassphrase []byte
 	defer bzero.Bytes(oldPassphrase)
 	if scanner.Scan() {
-		oldPassphrase = scanner.Bytes()
+		oldPassphrase = append([]byte(nil), scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -65,7 +65,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase []byte
 	defer bzero.Bytes(newPassphrase)
 	if scanner.Scan() {
-		newPassphrase = scanner.Bytes()
+		newPassphrase = append([]byte(nil), scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -74,7 +74,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase2 []byte
 	defer bzero.Bytes(newPassphrase2)
 	if scanner.Scan() {
-		newPassphrase2 = scanner.Bytes()
+		newPassphrase2 = append([]byte(nil), scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..ce498fc 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -103,7 +103,7 @@ func (ce *CtrlEngine) dbCreate(
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			passphrase = scanner.Bytes()
+			passphrase = append([]byte(nil), scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -121,7 +121,7 @@ func (ce *CtrlEngine) dbCreate(
 		}
 	} else {
 		if scanner.Scan() {
-			passphrase2 = scanner.Bytes()
+			passphrase2 = append([]byte(nil), scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -237,7 +237,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			oldPassphrase = scanner.Bytes()
+			oldPassphrase = append([]byte(nil), scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -255,7 +255,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase = scanner.Bytes()
+			newPassphrase = append([]byte(nil), scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -273,7 +273,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase2 = scanner.Bytes()
+			newPassphrase2 = append([]byte(nil), scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
-- 
2.43.0


From 14d8b712a969dc2f4e5d7c26b6b83f6e3898b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 07/80] fix: identity: enforce the maximum length on the mapped
 identity

---
 uid/identity/identity.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uid/identity/identity.go b/uid/identity/identity.go
index 77011c3..df06fdd 100644
--- a/uid/identity/identity.go
+++ b/uid/identity/identity.go
@@ -38,7 +38,12 @@ func Map(identity string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return mlp + "@" + MapDomain(domain), nil
+	mappedID := mlp + "@" + MapDomain(domain)
+	// the mapping can make an identity longer
+	if len(mappedID) > MaxLen {
+		return "", ErrTooLong
+	}
+	return mappedID, nil
 }
 
 // IsMapped returns an error, if the given identity is not well-formed or not
@@ -68,6 +73,10 @@ func MapPlus(identity string) (mappedID, mappedDomain string, err error) {
 	}
 	mappedDomain = MapDomain(domain)
 	mappedID = mlp + "@" + mappedDomain
+	// the mapping can make an identity longer
+	if len(mappedID) > MaxLen {
+		return "", "", ErrTooLong
+	}
 	return
 }
 
-- 
2.43.0


From e7e332c92c3513c5415f5c2db6efe21041cacbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 08/80] fix: mix/client: keep a sent message's record without
 message when unmarshalling

---
 mix/client/send.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mix/client/send.go b/mix/client/send.go
index e73426a..3d611c4 100644
--- a/mix/client/send.go
+++ b/mix/client/send.go
@@ -149,7 +149,10 @@ func (mm MessageMarshalled) Unmarshal() *MessageOutput {
 		mo.Error = err
 		mo.Resend = false
 	}
-	mo.Message = mom.Message
+	// the encoding does not tell a nil message from an empty one
+	if len(mom.Message) > 0 {
+		mo.Message = mom.Message
+	}
 	mo.To = mom.To
 	mo.From = mom.From
 	mo.RevokeID = mom.RevokeID
-- 
2.43.0


From f49bf60235718598f0fd2081231724a5af86f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 09/80] fix: textbuffer: treat negative coordinates as invalid

---
 tui/textbuffer/textbuffer.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tui/textbuffer/textbuffer.go b/tui/textbuffer/textbuffer.go
index a68eef9..02e546f 100644
--- a/tui/textbuffer/textbuffer.go
+++ b/tui/textbuffer/textbuffer.go
@@ -138,8 +138,8 @@ func New(b []byte) *TextBuffer {
 // GetRune returns the rune in line y at position x of the rune coordinate
 // system.
 func (tb *TextBuffer) GetRune(x, y int) rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].runes) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].runes) {
 			return tb.lines[y].runes[x]
 		}
 	}
@@ -149,8 +149,8 @@ func (tb *TextBuffer) GetRune(x, y int) rune {
 // GetChar returns the character in line y at position x of the character
 // coordinate system.
 func (tb *TextBuffer) GetChar(x, y int) []rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].chars) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].chars) {
 			var l int
 			if x > 0 {
 				l = tb.lines[y].chars[x-1]
@@ -166,8 +166,8 @@ func (tb *TextBuffer) GetChar(x, y int) []rune {
 // coordinate system. It also returns the width of the character:
 // 1: narrow, 2: wide, first half, 0: wide, second half.
 func (tb *TextBuffer) GetCell(x, y int) (c []rune, width int) {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].cells) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].cells) {
 			c := tb.lines[y].cells[x]
 			return tb.GetChar(c.charIndex, y), c.charWidth
 		}
@@ -195,7 +195,7 @@ func (tb *TextBuffer) Lines() int {
 // LineLenRune returns the length of line y in the rune coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenRune(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].runes)
 	}
 	return 0
@@ -204,7 +204,7 @@ func (tb *TextBuffer) LineLenRune(y int) int {
 // LineLenChar returns the length of line y in the character coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenChar(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].chars)
 	}
 	return 0
@@ -213,7 +213,7 @@ func (tb *TextBuffer) LineLenChar(y int) int {
 // LineLenCell returns the length of line y in the cell coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenCell(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].cells)
 	}
 	return 0
-- 
2.43.0


From 9f6a8284516af2ba91b5b921d6afecc2a3354d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 10/80] fix: mime: return an error for truncated attachments
 instead of crashing

---
 msg/mime/mime.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 5f4e14e..8bb25eb 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -369,6 +369,9 @@ func Parse(r io.Reader) (
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, "", "", nil, log.Error(err)
+		}
 		// parse header
 		contentType := p.Header.Get("Content-Type")
 		if contentType == "" {
@@ -398,9 +401,6 @@ func Parse(r io.Reader) (
 		}
 
 		// parse body
-		if err != nil {
-			return nil, "", "", nil, log.Error(err)
-		}
 		enc, err := ioutil.ReadAll(p)
 		if err != nil {
 			return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From f1b8e5ca00d072eea58e401239939d6d797d8137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 11/80] fix: mime: quote or encode the filenames of attachments

---
 msg/mime/mime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 8bb25eb..549788c 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -104,7 +104,8 @@ func multipartMIME(
 			}
 		}
 		mh.Add("Content-Transfer-Encoding", "base64")
-		mh.Add("Content-Disposition", "attachment; filename="+base)
+		mh.Add("Content-Disposition", mime.FormatMediaType("attachment",
+			map[string]string{"filename": base}))
 		if attachment.Inline {
 			mh.Add("Content-Disposition", "inline")
 		}
-- 
2.43.0


From 0d2194a95c6866c174bc14b5fa6c173402a27313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 12/80] fix: mime: parse messages with an empty subject line

---
 msg/mime/mime.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 549788c..736f66d 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -310,11 +310,8 @@ func Parse(r io.Reader) (
 			h.Cc = append(h.Cc, address.Address)
 		}
 	}
-	// parse subject
+	// parse subject (optional, empty subjects are not written)
 	subj := msg.Header.Get("Subject")
-	if subj == "" {
-		return nil, "", "", nil, log.Error("mime: 'Subject' not defined")
-	}
 	dec := new(mime.WordDecoder)
 	subject, err = dec.DecodeHeader(subj)
 	if err != nil {
-- 
2.43.0


From 3f8717b1b7dcae16ccf5cd691b15ee2be470ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 13/80] fix: mime: keep subjects with surrounding spaces or
 encoded words

---
 msg/mime/mime.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 736f66d..d016dcb 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -47,6 +47,15 @@ type Header struct {
 	InReplyTo string   // optional
 }
 
+// encodeSubject encodes the given subject such that it is parsed unchanged.
+func encodeSubject(subject string) string {
+	// surrounding spaces would be trimmed and "=?" could be decoded
+	if strings.TrimSpace(subject) != subject || strings.Contains(subject, "=?") {
+		return "=?utf-8?b?" + base64.Encode([]byte(subject)) + "?="
+	}
+	return mime.QEncoding.Encode("utf-8", subject)
+}
+
 func mailHeader(
 	w io.Writer,
 	header Header,
@@ -59,7 +68,7 @@ func mailHeader(
 		fmt.Fprintf(w, "Cc: %s\r\n", strings.Join(header.Cc, ","))
 	}
 	if subject != "" {
-		fmt.Fprintf(w, "Subject: %s\r\n", mime.QEncoding.Encode("utf-8", subject))
+		fmt.Fprintf(w, "Subject: %s\r\n", encodeSubject(subject))
 	}
 	fmt.Fprintf(w, "Message-ID: %s\r\n", header.MessageID)
 	if header.InReplyTo != "" {
-- 
2.43.0


From faa239be64585905b45d5520ebc22713dc6b44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 14/80] fix: mime: refuse messages truncated in an attachment's
 header

---
 msg/mime/mime.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index d016dcb..316e2b4 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -344,8 +344,16 @@ func Parse(r io.Reader) (
 	} else if mediaType != "multipart/mixed" {
 		return nil, "", "", nil, log.Error("mime: wrong 'Content-Type' header ")
 	}
+	// make sure that the message has not been truncated
+	body, err := ioutil.ReadAll(msg.Body)
+	if err != nil {
+		return nil, "", "", nil, log.Error(err)
+	}
+	if !bytes.Contains(body, []byte("--"+params["boundary"]+"--")) {
+		return nil, "", "", nil, log.Error("mime: closing boundary not found")
+	}
 	// read first MIME part (message)
-	mr := multipart.NewReader(msg.Body, params["boundary"])
+	mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
 	p, err := mr.NextPart()
 	if err != nil {
 		return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From c1423b6fa24530c9c8a91a6ab4616f901a882255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 15/80] fix: mixcrypt: refuse malformed message headers instead
 of panicking

---
 mix/mixcrypt/clientmix.go | 27 +++++++++++++++++++++++----
 mix/mixcrypt/common.go    |  2 ++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..5f69bf2 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -31,6 +31,9 @@ type ReceiveStruct struct {
 	Message           []byte
 }
 
+// maxHeaderLen is the maximum length of an encoded ClientMixHeader
+const maxHeaderLen = 65535 - 2
+
 // UniquenessData contains the hash and expire time for a uniqueness-check
 type UniquenessData struct {
 	Hash   []byte
@@ -63,7 +66,11 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if cl == nil {
 		cl = new(ClientMixHeader)
 	}
-	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
+	lenB := binary.BigEndian.Uint16(d[0:2])
+	if lenB > maxHeaderLen {
+		return nil, 0, ErrSize
+	}
+	lenB += 2
 	if len(d) < int(lenB) {
 		return nil, lenB, ErrTooShort
 	}
@@ -71,10 +78,10 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 0 || (cl.Token[0] == 0x00 && len(cl.Token) == 1) {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if len(cl.RevokeID) == 0 || (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
@@ -88,6 +95,9 @@ func (cl *ClientMixHeader) NewForwardMessage(NextHop string, NextHopKey *[KeySiz
 	cl.MessageType = MessageTypeForward
 	cl.Address = []byte(NextHop)
 	header := cl.Marshal()
+	if len(header) > maxHeaderLen+2 {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
@@ -108,9 +118,15 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	copy(NextHopKey[:], address.MixPubKey)
 	cl.MessageType = MessageTypeRelay
 	cl.Address = NymAddress
-	revokeID, _ := genNonce()
+	revokeID, err := genNonce()
+	if err != nil {
+		return nil, "", err
+	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
+	if len(header) > maxHeaderLen+2 {
+		return nil, "", ErrSize
+	}
 	messageC := make([]byte, len(header)+len(msg))
 	copy(messageC[0:len(header)], header)
 	copy(messageC[len(header):], msg)
@@ -145,6 +161,9 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if rstr.MixHeader.MessageType == MessageTypeForward && (msgLen < ForwardMinSize || msgLen > ForwardMaxSize) {
 		return nil, ErrSize
 	}
+	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
+		return nil, ErrBadType
+	}
 	// Uniqueness data collection
 	if rstr.MixHeader.MessageType == MessageTypeRelay {
 		rstr.NymAddress, err = nymaddr.ParseAddress(rstr.MixHeader.Address)
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..9ac196d 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -33,6 +33,8 @@ var (
 	ErrSize = errors.New("mixcrypt: message out of bounds")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
+	// ErrBadType is returned if a message of an unknown type was received
+	ErrBadType = errors.New("mixcrypt: bad message type")
 )
 
 // MuteSystemDomain is the domain of the Mute System.
-- 
2.43.0


From 493bd82a10a16e858d9fdef38e2d4ea86c163a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 16/80] fix: mixaddr: keep the statement of keys in step with
 their expiry

---
 mix/mixaddr/privkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..bab8034 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -191,6 +191,9 @@ func (kl *KeyList) expire() {
 	for _, k := range expired {
 		delete(kl.Keys, k)
 	}
+	if len(expired) > 0 {
+		kl.updateStatement()
+	}
 }
 
 // AddKey adds a key to the list.
@@ -208,6 +211,7 @@ func (kl *KeyList) AddKey() {
 	}
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
+	kl.expire()
 	kl.Keys[*pubkey] = ke
 	kl.saveKeys()
 	kl.updateStatement()
-- 
2.43.0


From 06254276ad0903513bdbf7d07a6ea0ae4b20d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 17/80] fix: mixaddr: refuse statements with keys or signatures
 of wrong length

---
 mix/mixaddr/addrlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mix/mixaddr/addrlist.go b/mix/mixaddr/addrlist.go
index f677ee1..b1e6fda 100644
--- a/mix/mixaddr/addrlist.go
+++ b/mix/mixaddr/addrlist.go
@@ -86,6 +86,9 @@ func getPubKey(privateKey *[ed25519.PrivateKeySize]byte) *[ed25519.PublicKeySize
 func (stmt AddressStatement) Verify() bool {
 	var pubKey [ed25519.PublicKeySize]byte
 	var signature [ed25519.SignatureSize]byte
+	if len(stmt.PublicKey) != len(pubKey) || len(stmt.Signature) != len(signature) {
+		return false
+	}
 	copy(pubKey[:], stmt.PublicKey)
 	copy(signature[:], stmt.Signature)
 	return stmt.Addresses.Verify(&pubKey, &signature)
-- 
2.43.0


From 87f8118552d1524448d1c51c92f09b2d62bcfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 18/80] fix: nymaddr: refuse expired addresses whose public
 part was altered

---
 mix/nymaddr/addr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mix/nymaddr/addr.go b/mix/nymaddr/addr.go
index 48944fb..aa2c81c 100644
--- a/mix/nymaddr/addr.go
+++ b/mix/nymaddr/addr.go
@@ -147,6 +147,10 @@ func (ad *Address) GetMixData(keysLookup KeyFunc) (*AddressPrivate, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the public part is not authenticated, the private part is decisive
+	if ap.Expire < times.Now() {
+		return nil, ErrExpired
+	}
 	return ap, nil
 }
 
-- 
2.43.0


From 35c3838b3172719ae49a15d7c0cf2fe2c007c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 19/80] fix: mixcrypt: do not overflow the header length when
 hashing the message

---
 mix/mixcrypt/clientmix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 5f69bf2..23203f3 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -177,7 +177,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[int(lenB) : int(lenB)+256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -188,7 +188,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[int(lenB) : int(lenB)+256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
-- 
2.43.0


From 9fe7a77e4386fac5fddbab57b0c8e90775927578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:52 +0000
Subject: [PATCH 20/80] fix: uid: check the keys of identity messages

---
 uid/keyentry.go |  2 +-
 uid/uid.go      | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b8dfe8d..b92b9fd 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -65,7 +65,7 @@ func (ke *KeyEntry) Verify() error {
 		return log.Errorf("uid: unknown ke.CIPHERSUITE: %s", ke.CIPHERSUITE)
 	}
 	// verify FUNCTION
-	if ke.FUNCTION != "ED25510" && ke.FUNCTION != "ECDHE25519" {
+	if ke.FUNCTION != "ED25519" && ke.FUNCTION != "ECDHE25519" {
 		return log.Errorf("uid: unknown ke.FUNCTION: %s", ke.FUNCTION)
 	}
 	// verify HASH
diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..922383e 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -215,6 +215,9 @@ func (msg *Message) checkV1_0() error {
 	if msg.UIDContent.PUBKEYS[0].FUNCTION != "ECDHE25519" {
 		return log.Error("uid: UIDContent.PUBKEYS[0].FUNCTION != \"ECDHE25519\"")
 	}
+	if err := msg.UIDContent.PUBKEYS[0].Verify(); err != nil {
+		return err
+	}
 	// UIDContent.SIGESCROW must be zero-value.
 	if msg.UIDContent.SIGESCROW != nil {
 		if msg.UIDContent.SIGESCROW.CIPHERSUITE != "" ||
@@ -270,6 +273,9 @@ func (msg *Message) Check() error {
 	if msg.UIDContent.SIGKEY.FUNCTION != "ED25519" {
 		return log.Error("uid: UIDContent.SIGKEY.FUNCTION != \"ED25519\"")
 	}
+	if err := msg.UIDContent.SIGKEY.Verify(); err != nil {
+		return err
+	}
 	// make sure LASTENTRY is parseable for a non-keyserver localpart.
 	// For keyservers the LASTENTRY can be empty, iff this is the first entry
 	// in the hashchain.
@@ -342,10 +348,10 @@ func (msg *Message) PublicKey() (*[32]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	// TODO: use other APIs from stdlib which do not require copy and panic
+	// TODO: use other APIs from stdlib which do not require copy
 	var pk [32]byte
 	if len(publicKey) != 32 {
-		panic("uid: len(publicKey) != 32")
+		return nil, log.Error("uid: len(publicKey) != 32")
 	}
 	copy(pk[:], publicKey)
 	return &pk, nil
-- 
2.43.0


From a46e98cda3f2584d99560e33f6ad7c0750d12e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:14 +0000
Subject: [PATCH 21/80] fix: uid: refuse replies that do not match the identity
 message

---
 uid/uid.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 922383e..2392b1f 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -631,9 +632,17 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDHash) != sha256.Size ||
+		len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error(ErrMsgMismatch)
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
+	// UIDHash = sha256(UIDMessage)
+	if !bytes.Equal(cipher.SHA256(Message), UIDHash) {
+		return nil, nil, log.Error(ErrMsgMismatch)
+	}
 	uid, err := NewJSON(string(Message))
 	if err != nil {
 		return nil, nil, log.Error(err)
@@ -645,14 +654,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, replyMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(replyMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 3a6a9a15e87415ef0d6df72771d46927bb6a295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:16 +0000
Subject: [PATCH 22/80] fix: uid: refuse malformed key init messages instead of
 panicking

---
 uid/keyinit.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
@@ -201,7 +206,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -229,7 +236,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From 038488fd34ebc821f96f20aa0ffe8392a7cec8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 23/80] fix: cryptengine: check the key server's hash chain
 answers

---
 cryptengine/hashchain.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..0364bb1 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/cipher/aes256"
@@ -18,6 +19,16 @@ import (
 	"github.com/mutecomm/mute/uid/identity"
 )
 
+// toPosition converts a JSON value to a hash chain position.
+func toPosition(value interface{}) (uint64, bool) {
+	pos, ok := value.(float64)
+	// larger integers cannot be represented exactly
+	if !ok || pos < 0 || pos > 1<<53 || pos != math.Trunc(pos) {
+		return 0, false
+	}
+	return uint64(pos), true
+}
+
 // syncHashChain brings local hash chain in sync with key server at the given
 // domain. It just downloads the new entries and does not validate them
 // whatsoever.
@@ -39,11 +50,10 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPos, ok := toPosition(reply["HCPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
-	hcPos := uint64(hcPosFloat)
 	log.Debugf("cryptengine: last HC#%d: %s", hcPos, hcEntry)
 
 	// determine what we already have
@@ -88,11 +98,14 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcFirstPos, ok := toPosition(reply["HCFirstPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
-	hcFirstPos := uint64(hcPosFirstFloat)
+	// make sure we got all the missing entries
+	if hcFirstPos != start || uint64(len(hcEntries)) < end-start+1 {
+		return log.Error("cryptengine: fetch hash chain reply has the wrong entries")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
@@ -102,7 +115,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -218,11 +231,10 @@ func (ce *CryptEngine) fetchUID(
 	if !ok {
 		return nil, log.Error("cryptengine: KeyRepository.FetchUID HASHCHAINENTRY has the wrong type")
 	}
-	hcPos, ok := e["HASHCHAINPOS"].(float64)
+	entry.HASHCHAINPOS, ok = toPosition(e["HASHCHAINPOS"])
 	if !ok {
 		return nil, log.Error("cryptengine: KeyRepository.FetchUID HASHCHAINPOS has the wrong type")
 	}
-	entry.HASHCHAINPOS = uint64(hcPos)
 
 	// Parse server signature
 	srvSig, ok := rep["SERVERSIGNATURE"].(string)
@@ -412,11 +424,10 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 	var TYPE, NONCE, HashID, CrUID, UIDIndex []byte
 	var matchFound bool
 	for k, v := range hcPositions {
-		hcPosFloat, ok := v.(float64)
+		hcPos, ok := toPosition(v)
 		if !ok {
 			return log.Errorf("cryptengine: lookup ID reply position entry %d has the wrong type", k)
 		}
-		hcPos := uint64(hcPosFloat)
 		hcEntry, err := ce.keyDB.GetHashChainEntry(domain, hcPos)
 		if err != nil {
 			return err
-- 
2.43.0


From 149491176a3e645b918de62916a2dbeecad144ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:34 +0000
Subject: [PATCH 24/80] fix: cryptengine: store only identity messages of the
 identity looked for

---
 cryptengine/hashchain.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 0364bb1..97ed185 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -367,6 +367,14 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure it is a valid message for the identity we are looking for
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: uid.Identity() != %s", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -494,6 +502,14 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure it is a valid message for the identity we are looking for
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: uid.Identity() != %s", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
-- 
2.43.0


From 7b9a1abaa41c92e269efd1d7895a06d42d31955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:34 +0000
Subject: [PATCH 25/80] fix: cryptengine: verify fetched key init messages

---
 cryptengine/keyinit.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..f24104f 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -126,6 +126,13 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// make sure the key init message is valid and from the given identity
+	if err := ki.Check(); err != nil {
+		return err
+	}
+	if err := ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 309c3ba5b8cbd975144ef7e51b0026bcd872911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 26/80] fix: cryptengine: refuse key servers without a
 signature key

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index f24104f..a3df5d8 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -49,6 +49,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server of '%s' has no signature key", domain)
+	}
 	// call server
 	content := make(map[string]interface{})
 	content["SigPubKey"] = msg.UIDContent.SIGKEY.PUBKEY
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..65f6bd7 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -86,6 +86,9 @@ func (ce *CryptEngine) registerOrUpdate(
 	if err != nil {
 		return err
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server of '%s' has no signature key", domain)
+	}
 	// register/update UID with key server
 	content := make(map[string]interface{})
 	content["UIDMessage"] = msg
-- 
2.43.0


From 7e9a5bba81f9c8177afc07e8ee25c476b25febc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 27/80] fix: keypool: refuse issuer keys which are not on the
 curve

---
 serviceguard/common/keypool/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..cb61b22 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -12,6 +12,7 @@ import (
 	"crypto/ed25519"
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/util/times"
+	"github.com/ronperry/cryptoedge/eccutil"
 )
 
 var (
@@ -217,6 +218,11 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
 	}
+	if !kp.onCurve(&loadKey.PublicKey) {
+		// Don't load keys which are no points on the curve. The signed keyID
+		// does not tell where coordinates, expiry and usage begin and end.
+		return nil, ErrBadSigner
+	}
 	if _, exists := kp.keys[loadKey.KeyID]; exists {
 		return &loadKey.KeyID, ErrExists
 	}
@@ -224,6 +230,14 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 	return &loadKey.KeyID, nil
 }
 
+// onCurve tests if p is a point on the generator's curve.
+func (kp *KeyPool) onCurve(p *eccutil.Point) bool {
+	if kp.Generator.Curve == nil {
+		return true
+	}
+	return p.X != nil && p.Y != nil && kp.Generator.Curve.Curve.IsOnCurve(p.X, p.Y)
+}
+
 // Load calls the load callback chain to load keys from storage
 func (kp *KeyPool) Load() error {
 	if kp.LoadKeysCallback != nil {
-- 
2.43.0


From 485dc804484d1fdd2099376922c99ef344782aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 28/80] fix: token: refuse tokens with fields of wrong length

---
 serviceguard/common/token/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serviceguard/common/token/types.go b/serviceguard/common/token/types.go
index 4ac5c2e..99fc886 100644
--- a/serviceguard/common/token/types.go
+++ b/serviceguard/common/token/types.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/asn1"
+	"errors"
 	"io"
 	"math/big"
 
@@ -27,6 +28,9 @@ const (
 	OwnerSize = ed25519.PublicKeySize
 )
 
+// ErrBadToken signals that an encoded token has fields of wrong length.
+var ErrBadToken = errors.New("token: bad token")
+
 // Rand is the random number source.
 var Rand = rand.Reader
 
@@ -112,6 +116,10 @@ func Unmarshal(d []byte) (*Token, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The hash does not tell where one field ends and the next begins
+	if len(t.KeyID) != KeyIDSize || len(t.Nonce) != NonceSize || len(t.Owner) != OwnerSize {
+		return nil, ErrBadToken
+	}
 	return t, nil
 }
 
-- 
2.43.0


From e667f6e040b035dbbb7c07cd338bc7475b9c6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 29/80] fix: serviceguard/client: refuse token signatures which
 are not on the curve

---
 serviceguard/client/verify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..13efabf 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -32,6 +32,10 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	}
 	// Get data from token, signature first
 	signature := tokenUnmarshalled.GetSignature()
+	if !c.packetClient.Curve.Curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	tempSignature := jjm.NewClearSignature(&pubkey.PublicKey)
 	tempSignature.PointR = signature.PointR
 	tempSignature.ScalarS = signature.ScalarS
@@ -42,7 +46,7 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.packetClient.Curve)
 	ok, err := blindClient.Verify(tempSignature, clearMessage)
 	if err != nil || !ok {
-		c.LastError = err
+		c.LastError = ErrSignatureToken
 		return nil, ErrFinal
 	}
 	outputToken = &TokenEntry{
-- 
2.43.0


From d41530feb054babebf4bd308f97c1dce0ff9fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 30/80] fix: packetproto: refuse unusable parameters and
 signatures which do not verify

---
 serviceguard/client/packetproto/methods.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..1ee92d8 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/serviceguard/common/token"
 	"github.com/mutecomm/mute/serviceguard/common/types"
+	"github.com/ronperry/cryptoedge/eccutil"
 	"github.com/ronperry/cryptoedge/genericblinding"
 	"github.com/ronperry/cryptoedge/jjm"
 )
@@ -23,12 +24,21 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadParams signals that blinding parameters are unusable
+	ErrBadParams = errors.New("client: bad parameters")
+	// ErrBadSignature signals that the signature of a new token does not verify
+	ErrBadSignature = errors.New("client: bad signature on new token")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
 
 // NewToken returns a blinded token ready for signing. Blindmessage goes to server, blindfactors and clear message remain local
 func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.BlindingParamClient, owner *[ed25519.PublicKeySize]byte) (genericblinding.BlindingFactors, genericblinding.BlindMessage, *token.Token, error) {
+	for _, p := range []*eccutil.Point{&pubParams.PointRs1, &pubParams.PointRs2} {
+		if !c.Curve.Curve.IsOnCurve(p.X, p.Y) {
+			return nil, nil, nil, ErrBadParams
+		}
+	}
 	newToken := token.New(&issuerPubKey.KeyID, owner)
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
@@ -147,15 +157,21 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
-- 
2.43.0


From 65ae257a857b327b2d32553b62379e35cfd6fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 31/80] fix: walletauth: do not crash on short server errors

---
 serviceguard/common/walletauth/walletauth.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..1cd9f39 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,11 +81,11 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
-		LastCounter, err := strconv.ParseInt(counter, 10, 64)
+		LastCounter, err := strconv.ParseUint(counter, 10, 64)
 		if err == nil {
-			return uint64(LastCounter), ErrReplay
+			return LastCounter, ErrReplay
 		}
 	}
 	return 0, err
-- 
2.43.0


From 8c504c23a52b6661304aeceb134a6bee647f0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:21 +0000
Subject: [PATCH 32/80] fix: cahash.Hash must accept exactly one certificate

Hash dereferenced a nil block when its input was not PEM, and it covered the
first block only: certificates appended to the pinned one by a server passed
the check and were installed as trusted CAs as well.
---
 configclient/cahash/hash.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..08b2cb5 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,12 +9,25 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNotSingleCert is returned if the input is not exactly one pem-encoded
+// certificate.
+var ErrNotSingleCert = errors.New("cahash: not a single certificate")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
-	block, _ := pem.Decode(cert)
-	_, err := x509.ParseCertificates(block.Bytes)
+	block, rest := pem.Decode(cert)
+	if block == nil || block.Type != "CERTIFICATE" || len(block.Headers) != 0 {
+		return nil, ErrNotSingleCert
+	}
+	// the hash covers only this block, whereas users of cert load every
+	// certificate it contains.
+	if next, _ := pem.Decode(rest); next != nil {
+		return nil, ErrNotSingleCert
+	}
+	_, err := x509.ParseCertificate(block.Bytes)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 44ad5298fbca242a8c630dabad5589fcc14b56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 33/80] fix: start every configuration update at the first
 server

The index left behind by the previous Update was the start of the next one:
after a failed update the next one asked nobody and dereferenced the missing
configuration, and after a CA failover it skipped preferred servers.
---
 configclient/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..ee28aa1 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -59,6 +59,7 @@ func (c *Config) Update() error {
 	ts := roundrobin.ParseServers(c.URLList)
 	sort.Sort(ts)
 	c.servers = ts.Order()
+	c.curServer = 0
 	if len(c.servers) < 1 {
 		return ErrNoServers
 	}
-- 
2.43.0


From 2a9caa51d26c83b621ebfc61b8783297aa00ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 34/80] fix: keep the installed CA when a new one cannot be
 fetched

A failed fetch set CACert to nil before Update returned the error, which left
the client without the CA of the configuration it still uses.
---
 configclient/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/configclient/client.go b/configclient/client.go
index ee28aa1..5b37a6f 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -49,7 +49,7 @@ type Config struct {
 func (c *Config) Update() error {
 	var err error
 	var cert *sortedmap.SignedMap
-	var myCAhash, certHashb []byte
+	var caCert, myCAhash, certHashb []byte
 	var hisHash string
 	var ok bool
 
@@ -88,6 +88,7 @@ GetConfigLoop:
 	if certHashb, err = hex.DecodeString(hisHash); err != nil {
 		return err
 	}
+	caCert = c.CACert
 	if c.CACert != nil {
 		if myCAhash, err = cahash.Hash(c.CACert); err != nil {
 			return err
@@ -96,7 +97,7 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
 				break CALoop
 			}
@@ -105,6 +106,7 @@ GetConfigLoop:
 	if err != nil {
 		return err
 	}
+	c.CACert = caCert
 	c.Map = cert.Config
 	c.LastSignDate = cert.SignDate
 	return nil
-- 
2.43.0


From 18ff44d1f4a3ced429a680ae4b084e797a3eddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 35/80] fix: keypool: synchronise lookups that fetch keys

Lookup added fetched keys to the map while holding the read lock only, so that
two lookups corrupt the map. Methods with value receivers copied the pool,
including the fields Current changes, without any lock.
---
 serviceguard/common/keypool/generator.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index cb61b22..b58bbc1 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -81,7 +81,7 @@ func (kp *KeyPool) AddVerifyKey(key *[ed25519.PublicKeySize]byte) {
 }
 
 // ListVerifyKeys lists all known verification keys.
-func (kp KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
+func (kp *KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
 	kp.mapMutex.Lock()
 	defer kp.mapMutex.Unlock()
 	ret := make([][ed25519.PublicKeySize]byte, 0, len(kp.VerifyPubKeys))
@@ -103,8 +103,9 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	// A fetched key is added to the pool
+	kp.mapMutex.Lock()
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
@@ -139,14 +140,14 @@ func (kp *KeyPool) lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey,
 }
 
 // SaveKey writes keyid to the keydir
-func (kp KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
 	kp.mapMutex.RLock()
 	defer kp.mapMutex.RUnlock()
 	return kp.SaveKeyUnsafe(keyid)
 }
 
 // SaveKeyUnsafe writes keyid to the keydir. Unsafe. No mutex. Only within callbacks.
-func (kp KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
 	key, err := kp.lookup(keyid)
 	if err != nil {
 		return err
@@ -247,7 +248,7 @@ func (kp *KeyPool) Load() error {
 }
 
 // WriteKey calls the write callback chain to write keys to storage
-func (kp KeyPool) WriteKey(key *signkeys.PublicKey) error {
+func (kp *KeyPool) WriteKey(key *signkeys.PublicKey) error {
 	// Write currentKey to file
 	data, err := key.Marshal()
 	if err != nil {
-- 
2.43.0


From cc40af978084571ac0a4ceb536321c3cf21aad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 36/80] fix: keypool: generate a new key when the current one
 has half expired

The sign was wrong: the current key was used until half its life after it had
expired.
---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index b58bbc1..21609e3 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -166,7 +166,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From 415624aecc38c4b81ea5d1f9b357e6f4f9918c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 37/80] fix: keydb: report that a key could not be stored

The test of the error was inverted: all errors were ignored, not only the one
for keys stored before.
---
 serviceguard/common/keypool/keydb/dbstorage.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..3f188f0 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -6,6 +6,7 @@
 package keydb
 
 import (
+	"bytes"
 	"database/sql"
 	"encoding/base64"
 	"encoding/hex"
@@ -130,8 +131,12 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
-			return err
+		if err != nil {
+			// The key may be stored already
+			stored, ferr := kd.Fetch(keyid)
+			if ferr != nil || !bytes.Equal(stored, marshalledKey) {
+				return err
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From a7a9acc4db6fcdcc7477ce0080c6beef16b17b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 38/80] fix: keydir, keydb: one damaged key must not keep all
 others from loading

A key file whose writing was interrupted made every later start of the client
fail. keydb left its result set, and thus the connection, open on errors.
---
 serviceguard/common/keypool/keydb/dbstorage.go    | 11 ++++++-----
 serviceguard/common/keypool/keydir/filestorage.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 3f188f0..84eb9c6 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -172,22 +172,23 @@ func (kd *KeyDB) loadFunc() keypool.LoadKeysCallbackFunc {
 		if err != nil {
 			return err
 		}
+		defer rows.Close()
 		for rows.Next() {
-			var KeyData string
+			var KeyData sql.NullString
 			err := rows.Scan(&KeyData)
 			if err != nil {
 				return err
 			}
-			marshalledKey, err := base64.StdEncoding.DecodeString(KeyData)
+			marshalledKey, err := base64.StdEncoding.DecodeString(KeyData.String)
 			if err != nil {
-				return err
+				continue // ignore damaged keys
 			}
 			loadKey, err := new(signkeys.PublicKey).Unmarshal(marshalledKey)
 			if err != nil {
-				return err
+				continue // ignore damaged keys
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-		return nil
+		return rows.Err()
 	}
 }
diff --git a/serviceguard/common/keypool/keydir/filestorage.go b/serviceguard/common/keypool/keydir/filestorage.go
index 635d8ff..6109f75 100644
--- a/serviceguard/common/keypool/keydir/filestorage.go
+++ b/serviceguard/common/keypool/keydir/filestorage.go
@@ -51,7 +51,7 @@ func loadKeysFromDir(keyDir string) keypool.LoadKeysCallbackFunc {
 			}
 			loadKey, err := new(signkeys.PublicKey).Unmarshal(d)
 			if err != nil {
-				return err
+				continue // ignore damaged keys, e.g. files not written completely
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-- 
2.43.0


From 2ace1628e2c0a461802f67f091bb06cc27eba96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 39/80] fix: keylookup: check the form of the lookup server's
 answers

Answers of other types crashed the client, another key than the one asked for
was returned, and keys of the wrong length (e.g. an empty list) were filled
with zeros.
---
 serviceguard/client/keylookup/impl.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..a04743e 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -61,6 +61,9 @@ func (klc LookupClient) GetKey(keyid *[signkeys.KeyIDSize]byte) (*signkeys.Publi
 	if err != nil {
 		return nil, err
 	}
+	if loadKey.KeyID != *keyid {
+		return nil, ErrParams
+	}
 	return loadKey, nil
 }
 
@@ -75,8 +78,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -119,16 +122,19 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	pubKeyS, ok := data["PublicKey"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	signatureS, ok := data["Signature"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	keylist, ok := data["KeyList"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
+	pubKey, err := hex.DecodeString(pubKeyS)
 	if err != nil {
 		return nil, ErrParams
 	}
@@ -137,12 +143,11 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		return nil, ErrBadSigner
 	}
 
-	signature, err := hex.DecodeString(data["Signature"].(string))
+	signature, err := hex.DecodeString(signatureS)
 	if err != nil {
 		return nil, ErrParams
 	}
-	keylist := data["KeyList"].(string)
-	ok := ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
+	ok = ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
 	if !ok {
 		return nil, ErrBadSignature
 	}
@@ -154,6 +159,9 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(dk) != len(keyA) {
+			return nil, ErrParams
+		}
 		copy(keyA[:], dk)
 		keylistRet = append(keylistRet, keyA)
 	}
-- 
2.43.0


From b7316db5037ada48c7290b3c78382715ea8e529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:45 +0000
Subject: [PATCH 40/80] fix: serviceguard/client/walletstore: store tokens
 without an owner

---
 serviceguard/client/walletstore/types.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index e096422..e1128e4 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -41,13 +41,15 @@ type TokenEntryDBState struct {
 // encodeToken encodes a TokenEntry for database usage
 func encodeToken(token *client.TokenEntry) (global *TokenEntryDBGlobal, state string) {
 	global = &TokenEntryDBGlobal{
-		Hash:        hex.EncodeToString(token.Hash),
-		Token:       base64.StdEncoding.EncodeToString(token.Token),
-		OwnerPubKey: base64.StdEncoding.EncodeToString(token.OwnerPubKey[:]),
-		Renewable:   token.Renewable,
-		CanReissue:  token.CanReissue,
-		Usage:       token.Usage,
-		Expire:      token.Expire,
+		Hash:       hex.EncodeToString(token.Hash),
+		Token:      base64.StdEncoding.EncodeToString(token.Token),
+		Renewable:  token.Renewable,
+		CanReissue: token.CanReissue,
+		Usage:      token.Usage,
+		Expire:     token.Expire,
+	}
+	if token.OwnerPubKey != nil { // not owned tokens have none
+		global.OwnerPubKey = base64.StdEncoding.EncodeToString(token.OwnerPubKey[:])
 	}
 	if token.OwnerPrivKey != nil {
 		global.OwnerPrivKey = base64.StdEncoding.EncodeToString(token.OwnerPrivKey[:])
@@ -96,8 +98,10 @@ func decodeToken(global *TokenEntryDBGlobal, state string) (token *client.TokenE
 		return nil, err
 	}
 	if OwnerPubKey, err := base64.StdEncoding.DecodeString(global.OwnerPubKey); err == nil {
-		token.OwnerPubKey = new([ed25519.PublicKeySize]byte)
-		copy(token.OwnerPubKey[:], OwnerPubKey)
+		if len(OwnerPubKey) > 0 {
+			token.OwnerPubKey = new([ed25519.PublicKeySize]byte)
+			copy(token.OwnerPubKey[:], OwnerPubKey)
+		}
 	} else {
 		return nil, err
 	}
-- 
2.43.0


From de9d406b7fbc8f9579cfd10267595b2fb2e6878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 41/80] fix: serviceguard/client/walletstore: a locked token
 cannot be locked again

---
 serviceguard/client/walletstore/store.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..9e98921 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -6,10 +6,12 @@
 package walletstore
 
 import (
+	"crypto/rand"
 	"database/sql"
 	"encoding/base64"
+	"encoding/binary"
 	"encoding/hex"
-	mathrand "math/rand"
+	"io"
 	"sync"
 
 	"crypto/ed25519"
@@ -54,7 +56,7 @@ CREATE TABLE IF NOT EXISTS walletState (
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
 	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
-	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0 OR LockID=?;"
+	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
 	deleteTokenQuery    = "DELETE FROM walletTokens WHERE Hash=?;"
 	deleteStateQuery    = "DELETE FROM walletState WHERE Hash=?;"
@@ -277,18 +279,28 @@ func (ws *Storage) DelToken(tokenHash []byte) {
 }
 
 func getLockID() int64 {
-	mathrand.Seed(times.NowNano())
-	lockID := mathrand.Int31()
-	return int64(lockID)
+	var b [4]byte
+	for {
+		if _, err := io.ReadFull(rand.Reader, b[:]); err != nil {
+			return -1
+		}
+		// must be > 0
+		if lockID := int64(binary.BigEndian.Uint32(b[:]) >> 1); lockID > 0 {
+			return lockID
+		}
+	}
 }
 
 // LockToken locks token against other use. Return lockID > 0 on success, <0 on failure
 func (ws *Storage) LockToken(tokenHash []byte) int64 {
 	lockID := getLockID()
+	if lockID <= 0 {
+		return -1
+	}
 	tokenHashS := hex.EncodeToString(tokenHash)
 	lockTime := times.Now()
 
-	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS, lockID)
+	res, err := ws.lockQuery.Exec(lockID, lockTime, tokenHashS)
 	if err != nil || res == nil {
 		return -1
 	}
-- 
2.43.0


From c2d6088cba0c70750fe5def4acc5b291c2c8ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 42/80] fix: serviceguard/client/walletstore: clean only
 expired locks

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 9e98921..9585114 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -209,7 +209,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From 72c761dad3cb90a47e4bf4753d02b6f367e1fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:13 +0000
Subject: [PATCH 43/80] fix: serviceguard/client/walletstore: read the stored
 cache after a restart

---
 serviceguard/client/walletstore/store.go | 60 ++++++++----------------
 serviceguard/client/walletstore/types.go |  5 +-
 2 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 9585114..253642f 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -316,10 +316,8 @@ func (ws *Storage) UnlockToken(tokenHash []byte) {
 	ws.unlockQuery.Exec(tokenHashS)
 }
 
-// writeCache writes the cache to database
+// writeCache writes the cache to database. cacheMutex must be locked
 func (ws *Storage) writeCache() error {
-	ws.cacheMutex.Lock()
-	defer ws.cacheMutex.Unlock()
 	data := ws.cache.Marshal()
 	_, err := ws.setStateQuery.Exec("CONFIGCACHE", data)
 	if err != nil {
@@ -331,75 +329,57 @@ func (ws *Storage) writeCache() error {
 	return nil
 }
 
-// readCache reads the cache from the database
+// readCache reads the cache from the database, if it has not been read before.
+// cacheMutex must be locked
 func (ws *Storage) readCache() {
-	var data string
-	ws.cacheMutex.Lock()
-	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
-	if err != nil {
+	var data, tmp string
+	if ws.cache != nil {
 		return
 	}
-	dataU, err := new(CacheData).Unmarshal(data)
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&tmp, &data)
+	if err == nil {
+		ws.cache, err = new(CacheData).Unmarshal(data)
+	}
 	if err != nil {
-		return
+		ws.cache = new(CacheData)
 	}
-	ws.cache = dataU
 }
 
 // SetVerifyKeys saves verification keys
 func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 	ws.cacheMutex.Lock()
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	ws.cache.VerifyKeys = verifyKeys
-	ws.cacheMutex.Unlock()
 	ws.writeCache()
 }
 
 // GetVerifyKeys loads verification keys
 func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	if ws.cache.VerifyKeys == nil {
 		ws.cache.VerifyKeys = make([][ed25519.PublicKeySize]byte, 0)
 	}
-	defer ws.cacheMutex.RUnlock()
 	return ws.cache.VerifyKeys
 }
 
 // SetAuthToken stores an authtoken and tries
 func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 	ws.cacheMutex.Lock()
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	ws.cache.AuthToken = authToken
 	ws.cache.AuthTries = tries
-	ws.cacheMutex.Unlock()
 	return ws.writeCache()
 }
 
 // GetAuthToken gets authtoken from store
 func (ws *Storage) GetAuthToken() (authToken []byte, tries int) {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	defer ws.cacheMutex.RUnlock()
-	if ws.cache == nil {
-		return nil, 0
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	return ws.cache.AuthToken, ws.cache.AuthTries
 }
 
diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index e1128e4..48fc722 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -207,7 +207,10 @@ func (cd *CacheData) Unmarshal(d string) (*CacheData, error) {
 		copy(copyKey[:], key)
 		cd.VerifyKeys = append(cd.VerifyKeys, *copyKey)
 	}
-	cd.AuthToken = cdb.AuthToken
+	cd.AuthToken = nil
+	if len(cdb.AuthToken) > 0 {
+		cd.AuthToken = cdb.AuthToken
+	}
 	cd.AuthTries = cdb.AuthTries
 	return cd, nil
 }
-- 
2.43.0


From 57f9c5cf7e36e23bda34cd6d5f190d5ab87c82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 44/80] fix: serviceguard/client/walletstore: store a token and
 its state at once

---
 serviceguard/client/walletstore/store.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 253642f..25b1b36 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -219,12 +219,18 @@ func (ws *Storage) CleanLocks(force bool) {
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	// Token and state belong together
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		_, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
@@ -233,15 +239,15 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
+		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
 		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
+			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
 			if err != nil {
 				return err
 			}
 		}
 	}
-	return nil
+	return tx.Commit()
 }
 
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
-- 
2.43.0


From 7c3cbd33c492a274c4f36e59f8763da9611179c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 45/80] fix: refuse replies of wallet servers and issuers with
 fields of another type

---
 serviceguard/client/guardrpc/client.go  | 20 ++++++++++----------
 serviceguard/client/walletrpc/client.go |  3 +++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..4586ed3 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,8 +74,8 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -97,8 +97,8 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -120,8 +120,8 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
-		return data["Status"].(bool), nil
+	if status, ok := data["Status"].(bool); ok {
+		return status, nil
 	}
 	return false, ErrParams
 }
@@ -139,10 +139,10 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
@@ -176,10 +176,10 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..71c503c 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -162,6 +162,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if _, ok := data["Params"].(string); !ok {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From f4a8e20d112f1b21c5038dc79a424dbe731578b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 46/80] fix: exchange tokens without a given owner instead of
 panicking

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..ff678f0 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,6 +88,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
-- 
2.43.0


From 04fc0aa017505a88ef52b0de0555f356760516c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 47/80] fix: do not exchange tokens locked by somebody else

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index ff678f0..4190014 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From 8823e6db93dd198321276ddd8515b6293c6303e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 48/80] fix: keep an exchanged token until the new one is
 stored

---
 serviceguard/client/reissue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 4190014..fdd5bbb 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// Delete old token only now, the exchange can be repeated until here
+	c.walletStore.DelToken(tokenEntry.Hash)
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From f599a78c80f7714f31faef126c9e16dd1761294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 49/80] fix: do not return the token of another owner from a
 resumed exchange

---
 serviceguard/client/reissue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index fdd5bbb..7ce98f9 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -178,5 +178,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	}
 	// Delete old token only now, the exchange can be repeated until here
 	c.walletStore.DelToken(tokenEntry.Hash)
+	if ownerPubkey != nil && *tokenentryNew.OwnerPubKey != *ownerPubkey {
+		// The exchange had been begun for another owner, who has a token now
+		c.LastError = ErrOwnerToken
+		return nil, ErrRetry
+	}
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From cbb9d02dc07fdf472be61fc333ac9d6d89aa2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 50/80] fix: ask for new params if those of an exchange are
 unusable

---
 serviceguard/client/reissue.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 7ce98f9..8554e52 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -99,6 +99,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		serverPacket, blindingFactors, err := c.packetClient.Reissue(tokenEntry.Token, tokenEntry.OwnerPrivKey, tokenEntry.NewOwnerPubKey, tokenEntry.Params)
 		if err != nil {
 			c.LastError = err
+			c.resetReissue(tokenEntry) // Do not use these params again
 			return nil, ErrFatal
 		}
 		// Marshall local, store packet and local in walletStore
@@ -119,6 +120,13 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	if err != nil {
 		c.LastError = err
 		_, fatal, err := lookupError(err)
+		switch err {
+		case ErrParamsExpired, ErrParamDoubleSpend, ErrParameterMixed:
+			// The token can be exchanged with other params
+			c.resetReissue(tokenEntry)
+			c.LastError = err
+			return nil, ErrRetry
+		}
 		if fatal {
 			c.LastError = err
 			return nil, ErrFinal
@@ -185,3 +193,13 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	}
 	return tokenentryNew.Hash, nil
 }
+
+// resetReissue forgets the params of tokenEntry and what has been made of them.
+func (c *Client) resetReissue(tokenEntry *TokenEntry) {
+	tokenEntry.Params = nil
+	tokenEntry.ServerPacket = nil
+	tokenEntry.BlindingFactors = nil
+	tokenEntry.NewOwnerPubKey = nil
+	tokenEntry.NewOwnerPrivKey = nil
+	c.walletStore.SetToken(*tokenEntry)
+}
-- 
2.43.0


From a35a85c4e86ee1b434df2207d6ac24804fb51c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 51/80] fix: report failures of the wallet store from GetToken

---
 serviceguard/client/clientlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..16b4e35 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -197,6 +197,9 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From 533e5aacb65ce7c8fa363477db279f7d220a6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 52/80] fix: verify tokens of the wallet server before
 accepting them

---
 serviceguard/client/walletserver.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..90c6c87 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -40,6 +40,20 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		return nil, ErrFatal
 	}
 	c.packetClient.Keypool.SaveKey(*keyid)
+	// Check that the token is what we asked for
+	verified, err := c.Verify(newToken)
+	if err != nil {
+		return nil, err
+	}
+	ownerPubkey, ownerPrivkey := splitKey(c.walletKey)
+	if verified.Usage != usage {
+		c.LastError = ErrUsageToken
+		return nil, ErrFinal
+	}
+	if verified.OwnerPubKey == nil || *verified.OwnerPubKey != *ownerPubkey {
+		c.LastError = ErrOwnerToken
+		return nil, ErrFinal
+	}
 	// If we have params this is not renewable
 	renewable := false
 	if params == nil || len(params) == 0 {
@@ -56,7 +70,6 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		}
 	}
 	//tokenUnmarshalled.KeyID
-	ownerPubkey, ownerPrivkey := splitKey(c.walletKey)
 	// Set tokenentry struct for storage
 	tokenentry := TokenEntry{
 		Hash:         tokenUnmarshalled.Hash(),
@@ -66,8 +79,8 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		OwnerPrivKey: ownerPrivkey,
 		Renewable:    renewable,
 		CanReissue:   true,
-		Usage:        signerPubKey.Usage,
-		Expire:       signerPubKey.Expire,
+		Usage:        verified.Usage,
+		Expire:       verified.Expire,
 	}
 	err = c.walletStore.SetToken(tokenentry) // Cache current state
 	if err != nil {
-- 
2.43.0


From 6a809102f75b6ed830b27fde834eaa2958aae784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 53/80] fix: keep the authtoken until the token it was used for
 is stored

---
 serviceguard/client/walletserver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 90c6c87..a80de86 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -87,6 +87,8 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// Reset authtoken cache, the reply is not needed again
+	c.walletStore.SetAuthToken(nil, 0)
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
 	}
@@ -129,7 +131,5 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		}
 		return nil, nil, nil, ErrRetry
 	}
-	// Reset authtoken cache
-	c.walletStore.SetAuthToken(nil, 0)
 	return newToken, params, pubkeyUsed, nil
 }
-- 
2.43.0


From eff1bd308456c2b6e77292a6110f0e73b984e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 54/80] fix: replace an authtoken refused as replayed

---
 serviceguard/client/walletrpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 71c503c..f20b1fc 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -125,6 +125,7 @@ CallLoop:
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // Create a new one
 			if i > 0 {
 				i--
 				continue CallLoop
-- 
2.43.0


From 56e5a02b4b3a000b880398ed962ca8c2644791fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 55/80] fix: forget an authtoken the wallet server refuses for
 good

---
 serviceguard/client/walletserver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index a80de86..8961c81 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -120,6 +120,8 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		c.LastError = err
 		_, fatal, err := lookupError(err)
 		if fatal {
+			// Do not use the authtoken again
+			c.walletStore.SetAuthToken(nil, 0)
 			c.LastError = err
 			return nil, nil, nil, ErrFinal
 		}
-- 
2.43.0


From ea464d429e67bd50525ad1a3ed067a383222f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 56/80] fix: store a new authtoken before it is used

---
 serviceguard/client/walletrpc/client.go | 6 ++++++
 serviceguard/client/walletserver.go     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index f20b1fc..6e19e5b 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -34,6 +34,7 @@ type WalletClient struct {
 	PrivKey         *[ed25519.PrivateKeySize]byte // Private key of PrivKey
 	LastAuthCounter uint64                        // Last authentication counter
 	LastAuthToken   []byte                        // Last authtoken used, required for call caching
+	SaveAuthToken   func([]byte) error            // Called with new authtokens before they are used for tokens, if set
 }
 
 // New returns a new walletservice  client
@@ -121,6 +122,11 @@ CallLoop:
 		authtoken := wc.LastAuthToken
 		if authtoken == nil {
 			authtoken = walletauth.CreateToken(wc.PubKey, wc.PrivKey, lastcounter+1)
+			if wc.SaveAuthToken != nil {
+				if err = wc.SaveAuthToken(authtoken); err != nil {
+					return nil, nil, nil, err
+				}
+			}
 		}
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 8961c81..9bbcccc 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -115,6 +115,10 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		c.walletRPC.LastAuthToken = nil
 		tries = 0
 	}
+	// cache new authtokens before use, the reply may be lost
+	c.walletRPC.SaveAuthToken = func(authToken []byte) error {
+		return c.walletStore.SetAuthToken(authToken, 0)
+	}
 	newToken, params, pubkeyUsed, err := c.walletRPC.GetToken(usage)
 	if err != nil {
 		c.LastError = err
-- 
2.43.0


From 16a1159d06be914fb3f1e38c586367026ddcde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 57/80] fix: look up the key of a token to exchange if it is
 not known

---
 serviceguard/client/reissue.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 8554e52..35d61f2 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -55,10 +55,9 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		return nil, ErrFatal
 	}
 	keyid, _ := tokenUnmarshalled.Properties()
-	key, err := c.packetClient.Keypool.Lookup(*keyid)
+	key, err := c.getPubKey(*keyid)
 	if err != nil {
-		c.LastError = err
-		return nil, ErrFatal
+		return nil, err
 	}
 	// Test if we are communicating already
 	if tokenEntry.ServerPacket == nil {
-- 
2.43.0


From 04aff7ea1dccb25d3cf3f0d3243798c43d123b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 58/80] fix: drop a token the issuer says is spent

---
 serviceguard/client/reissue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 35d61f2..0b33ca8 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -126,6 +126,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 			c.LastError = err
 			return nil, ErrRetry
 		}
+		if err == ErrTokenDoubleSpend {
+			// The token is not good for anything anymore
+			c.walletStore.DelToken(tokenEntry.Hash)
+		}
 		if fatal {
 			c.LastError = err
 			return nil, ErrFinal
-- 
2.43.0


From 92e841055660485085a01df634ba899b0b8268a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:33 +0000
Subject: [PATCH 59/80] fix: do not overwrite or exchange a token that can
 still be fetched again

---
 serviceguard/client/walletserver.go      | 25 ++++++++++++++++++++++--
 serviceguard/client/walletstore/store.go |  3 +++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 9bbcccc..483cc13 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -5,6 +5,7 @@
 package client
 
 import (
+	"bytes"
 	"crypto/ed25519"
 	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
 	"github.com/mutecomm/mute/serviceguard/common/keypool"
@@ -82,13 +83,24 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		Usage:        verified.Usage,
 		Expire:       verified.Expire,
 	}
-	err = c.walletStore.SetToken(tokenentry) // Cache current state
+	known, err := c.isKnown(tokenentry.Hash)
 	if err != nil {
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	if !known { // Do not forget how far the exchange of a known token is
+		err = c.walletStore.SetToken(tokenentry) // Cache current state
+		if err != nil {
+			c.LastError = err
+			return nil, ErrFatal
+		}
+	}
 	// Reset authtoken cache, the reply is not needed again
-	c.walletStore.SetAuthToken(nil, 0)
+	err = c.walletStore.SetAuthToken(nil, 0)
+	if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
+	}
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
 	}
@@ -96,6 +108,15 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 	return c.ReissueToken(tokenentry.Hash, owner)
 }
 
+// isKnown tests if the token identified by tokenHash is in the wallet.
+func (c *Client) isKnown(tokenHash []byte) (bool, error) {
+	tokenEntry, err := c.walletStore.GetToken(tokenHash, -1)
+	if err != nil && err != ErrNoToken {
+		return false, err
+	}
+	return err == nil && tokenEntry != nil && bytes.Equal(tokenEntry.Hash, tokenHash), nil
+}
+
 // getTokenFromWallet gets a single token for usage from Wallet.
 func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []byte, err error) {
 	var tries int
diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 25b1b36..0ae3ccd 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -262,6 +262,9 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 		&tokenDB.CanReissue, &tokenDB.Usage, &tokenDB.Expire,
 		&tokenDB.OwnedSelf, &tokenDB.HasParams, &tokenDB.HasState,
 	)
+	if err == sql.ErrNoRows {
+		return nil, client.ErrNoToken
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c7de06215d7c3cf50ba4b0a99b8beb0a3ba6d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 60/80] fix: refuse received tokens without an owner instead of
 panicking

---
 serviceguard/client/receive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..24c4353 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,7 +16,7 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-- 
2.43.0


From 0ad9814f8635836be3a03d183ce61c0acf951bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 61/80] fix: do not report a token as received which could not
 be stored

---
 serviceguard/client/receive.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index 24c4353..40e6116 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -20,10 +20,16 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
-	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
-		return nil
+	known, err := c.isKnown(tokenEntry.Hash)
+	if err == nil && !known {
+		err = c.walletStore.SetToken(*tokenEntry)
+		if err == nil {
+			return nil
+		}
+	}
+	if err != nil {
+		c.LastError = err
+		return ErrFatal
 	}
 	c.LastError = ErrTokenKnown
 	return ErrFinal
-- 
2.43.0


From 239ec11fac984882407993443cadef069119360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 62/80] fix: stop the wallet runner when told and let it be
 started again

---
 serviceguard/client/clientlib.go |  4 ++--
 serviceguard/client/runner.go    | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 16b4e35..b8576b8 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -76,7 +76,7 @@ func New(keyBackends []types.Backend, walletstore WalletStore, walletKey *[ed255
 	c.walletStore = walletstore
 	c.cacert = cacert
 	c.walletKey = walletKey
-	c.stopChan = make(chan bool)
+	c.stopChan = make(chan bool, 1)
 	pubkey, privkey := splitKey(c.walletKey)
 	c.walletRPC = walletrpc.New(pubkey, privkey, c.cacert)
 	return c, nil
@@ -97,7 +97,7 @@ func (c *Client) GoOnline() {
 // using the internet connection have returned.
 func (c *Client) GoOffline() {
 	c.online = false
-	go c.StopRunner()
+	c.StopRunner()
 	onlineGroup.Wait()
 }
 
diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 911eb5f..ae00503 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -16,28 +16,41 @@ import (
 
 // Runner starts the background runner for token-store management.
 func (c *Client) Runner() {
+	select {
+	case <-c.stopChan: // Forget what was meant for an earlier run
+	default:
+	}
 	go c.runner()
 }
 
 // StopRunner stops the runner. Should be called non-blocking (go StopRunner()).
 func (c *Client) StopRunner() {
-	c.stopChan <- true
+	select {
+	case c.stopChan <- true:
+	default: // Has been told already
+	}
 }
 
 func (c *Client) runner() {
 	// Prevent double-start
 	runnerLock.Lock()
 	if c.runnerRunning {
+		runnerLock.Unlock()
 		return
 	}
 	c.runnerRunning = true
 	runnerLock.Unlock()
 	for {
 		var actionCount int
-		if len(c.stopChan) > 0 {
-			<-c.stopChan
+		runnerLock.Lock()
+		select {
+		case <-c.stopChan:
+			c.runnerRunning = false
+			runnerLock.Unlock()
 			runtime.Goexit()
+		default:
 		}
+		runnerLock.Unlock()
 		onlineGroup.Add(1)
 		// Delete some expired tokens
 		if c.walletStore.ExpireUnusable() {
-- 
2.43.0


From 6136998f833298ccb2629419aa8a29d00885979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 63/80] fix: refuse empty session cookies in the web
 application

---
 ctrlengine/app.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index cbc8fc3..140bcc7 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -103,8 +103,8 @@ func (sh *staticHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	auth.RLock()
 	secret = auth.secret
 	auth.RUnlock()
-	// check that cookie has been set and equals random secret
-	if cookie.Value != "" && cookie.Value != secret {
+	// check that secret has been set and equals cookie value
+	if secret == "" || cookie.Value != secret {
 		http.Error(w, "invalid cookie value", http.StatusForbidden)
 		return
 	}
-- 
2.43.0


From 0070275efab5505cbeac1e1a188c800b3830398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 64/80] fix: refuse logins without a passphrase instead of
 panicking

---
 ctrlengine/app.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index 140bcc7..9dd4153 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -58,7 +58,12 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusBadRequest)
 			return
 		}
-		passphrase := r.Form["passphrase"][0]
+		values, ok := r.Form["passphrase"]
+		if !ok {
+			http.Error(w, "passphrase missing", http.StatusBadRequest)
+			return
+		}
+		passphrase := values[0]
 		lh.ce.passphrase = []byte(passphrase)
 		if err := lh.ce.prepare(lh.c, true, true); err != nil {
 			// TODO: allow to input passphrase again
-- 
2.43.0


From a99dde2da48109e9041eb018d5222233ef78b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 65/80] fix: check the passphrase at every login to the web
 application

---
 ctrlengine/app.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index 9dd4153..27193eb 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -5,6 +5,7 @@
 package ctrlengine
 
 import (
+	"crypto/subtle"
 	"fmt"
 	"html/template"
 	"io"
@@ -14,6 +15,7 @@ import (
 	"time"
 
 	"github.com/mutecomm/mute/cipher"
+	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/util/browser"
 	"github.com/urfave/cli"
 )
@@ -42,11 +44,25 @@ var auth struct {
 }
 
 type loginHandler struct {
+	mutex    sync.Mutex // protects ce
 	ce       *CtrlEngine
 	c        *cli.Context
 	statusfp io.Writer
 }
 
+// unlock opens the message DB with the given passphrase. If the DB is open
+// already, the passphrase must be the one it has been opened with.
+func (lh *loginHandler) unlock(passphrase []byte) error {
+	lh.mutex.Lock()
+	defer lh.mutex.Unlock()
+	if lh.ce.msgDB == nil {
+		lh.ce.passphrase = passphrase
+	} else if subtle.ConstantTimeCompare(lh.ce.passphrase, passphrase) != 1 {
+		return log.Error("ctrlengine: wrong passphrase")
+	}
+	return lh.ce.prepare(lh.c, true, true)
+}
+
 func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	if r.Method == "GET" {
 		if err := t.Execute(w, nil); err != nil {
@@ -64,8 +80,7 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		passphrase := values[0]
-		lh.ce.passphrase = []byte(passphrase)
-		if err := lh.ce.prepare(lh.c, true, true); err != nil {
+		if err := lh.unlock([]byte(passphrase)); err != nil {
 			// TODO: allow to input passphrase again
 			http.Error(w, err.Error(), http.StatusForbidden)
 			return
-- 
2.43.0


From dd876a13778d49d0d62a5f0213f978693ea62b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 66/80] fix: record an unknown sender as unknown, and keep a
 new contact's full name

---
 ctrlengine/contact.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..422972d 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -226,7 +226,7 @@ func get(outfp io.Writer, msgDB *msgdb.MsgDB, id string, blocked bool) error {
 	// get list of mapped contacts
 	contacts, err := msgDB.GetContacts(id, blocked)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// print list
@@ -252,14 +252,17 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
-		contactMapped)
+	unmappedID, prevFullName, prevContactType, err := ce.msgDB.GetContact(
+		idMapped, contactMapped)
 	if err != nil {
 		return err
 	}
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
+		if prevContactType != msgdb.WhiteList {
+			if fullName == "" {
+				fullName = prevFullName
+			}
 			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
 				msgdb.WhiteList)
 			if err != nil {
-- 
2.43.0


From b85b7018b8885a4b818b16bae2ea17dffd05e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:00 +0000
Subject: [PATCH 67/80] fix: do not lose a message if the keys of its unknown
 sender are not available

---
 ctrlengine/contact.go | 6 ++++++
 ctrlengine/msg.go     | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 422972d..6045cc9 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -260,6 +260,12 @@ func (ce *CtrlEngine) contactAdd(
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
 		if prevContactType != msgdb.WhiteList {
+			// the keys could be missing, if the contact was not added by us
+			err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain,
+				host, ce.client)
+			if err != nil {
+				return err
+			}
 			if fullName == "" {
 				fullName = prevFullName
 			}
diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..cb644de 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -784,7 +784,12 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			if contact == "" {
 				err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
 				if err != nil {
-					return log.Error(err)
+					// the message cannot be decrypted again, do not lose it
+					log.Warnf("ctrlengine: cannot get keys of %s: %s", senderID, err)
+					err := add(ce.msgDB, myID, senderID, "", msgdb.GrayList)
+					if err != nil {
+						return log.Error(err)
+					}
 				}
 			} else if contactType == msgdb.BlackList {
 				// messages from black listed contacts are dropped directly
-- 
2.43.0


From facfd022f7e15fbcc8b5438fdc7203623fab17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:08 +0000
Subject: [PATCH 68/80] fix: store the key changes of a message together or not
 at all

---
 cryptengine/decrypt.go  |  5 ++++-
 cryptengine/encrypt.go  |  5 ++++-
 cryptengine/keystore.go | 12 ++++++++++++
 keydb/keydb.go          | 37 +++++++++++++++++++++++++++++++++++++
 keydb/session.go        | 16 ++++++----------
 5 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/cryptengine/decrypt.go b/cryptengine/decrypt.go
index 4ebb475..45594fb 100644
--- a/cryptengine/decrypt.go
+++ b/cryptengine/decrypt.go
@@ -69,7 +69,10 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 		Rand:       cipher.RandReader,
 		KeyStore:   ce,
 	}
-	senderID, sig, err = msg.Decrypt(args)
+	err = ce.atomically(func() (err error) {
+		senderID, sig, err = msg.Decrypt(args)
+		return
+	})
 	if err != nil {
 		// TODO: handle msg.ErrStatusError, should trigger a subsequent
 		// encrypted message with StatusError
diff --git a/cryptengine/encrypt.go b/cryptengine/encrypt.go
index 0866dab..2963f3d 100644
--- a/cryptengine/encrypt.go
+++ b/cryptengine/encrypt.go
@@ -68,7 +68,10 @@ func (ce *CryptEngine) encrypt(
 		Rand:                   cipher.RandReader,
 		KeyStore:               ce,
 	}
-	nymAddress, err = msg.Encrypt(args)
+	err = ce.atomically(func() (err error) {
+		nymAddress, err = msg.Encrypt(args)
+		return
+	})
 	if err != nil {
 		return err
 	}
diff --git a/cryptengine/keystore.go b/cryptengine/keystore.go
index ad98218..7c01133 100644
--- a/cryptengine/keystore.go
+++ b/cryptengine/keystore.go
@@ -8,12 +8,24 @@ import (
 	"database/sql"
 
 	"github.com/mutecomm/mute/encode/base64"
+	"github.com/mutecomm/mute/keydb"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/msg/session"
 	"github.com/mutecomm/mute/uid"
 	"github.com/mutecomm/mute/util"
 )
 
+// atomically calls f, all changes of which to the key store are stored
+// together, and only if it returns no error.
+func (ce *CryptEngine) atomically(f func() error) error {
+	keyDB := ce.keyDB
+	defer func() { ce.keyDB = keyDB }()
+	return keyDB.Atomically(func(tx *keydb.KeyDB) error {
+		ce.keyDB = tx
+		return f()
+	})
+}
+
 // GetSessionState implements corresponding method for msg.KeyStore interface.
 func (ce *CryptEngine) GetSessionState(sessionStateKey string) (
 	*session.State,
diff --git a/keydb/keydb.go b/keydb/keydb.go
index 5e2a4fd..5f9ff2b 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -153,6 +153,7 @@ CREATE TABLE SessionKeys (
 // KeyDB is a handle for an encrypted database used to store mute keys.
 type KeyDB struct {
 	encDB                     *sql.DB // handle for encDB
+	tx                        *sql.Tx // the transaction, if in one (see Atomically)
 	updateValueQuery          *sql.Stmt
 	insertValueQuery          *sql.Stmt
 	getValueQuery             *sql.Stmt
@@ -370,6 +371,42 @@ func Rekey(dbname string, oldPassphrase, newPassphrase []byte, newIter int) erro
 	return encdb.Rekey(dbname, oldPassphrase, newPassphrase, newIter)
 }
 
+// Atomically calls f with a handle of keyDB for which all changes of sessions,
+// session keys, and session states belong to one transaction: They are only
+// stored if f returns no error, and then all together.
+func (keyDB *KeyDB) Atomically(f func(keyDB *KeyDB) error) error {
+	tx, err := keyDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	defer tx.Rollback() // does nothing after the commit
+	db := *keyDB
+	db.tx = tx
+	for _, stmt := range []**sql.Stmt{
+		&db.getPrivateKeyInitQuery,
+		&db.getPublicKeyInitQuery,
+		&db.getSessionQuery,
+		&db.getSessionIDQuery,
+		&db.getMessageKeyQuery,
+		&db.delMessageKeyQuery,
+		&db.updateSessionStateQuery,
+		&db.insertSessionStateQuery,
+		&db.getSessionStateQuery,
+		&db.insertSessionKeyQuery,
+		&db.getSessionKeyQuery,
+		&db.updateSessionKeyQuery,
+	} {
+		*stmt = tx.Stmt(*stmt)
+	}
+	if err := f(&db); err != nil {
+		return err
+	}
+	if err := tx.Commit(); err != nil {
+		return log.Error(err)
+	}
+	return nil
+}
+
 // Status returns the autoVacuum mode and freelistCount of keyDB.
 func (keyDB *KeyDB) Status() (
 	autoVacuum string,
diff --git a/keydb/session.go b/keydb/session.go
index 27c285d..df443b4 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -30,11 +30,13 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error("keydb: len(send) != len(recv)")
 	}
 
-	// start transaction
-	tx, err := keyDB.encDB.Begin()
-	if err != nil {
-		return log.Error(err)
+	// start transaction, if necessary
+	if keyDB.tx == nil {
+		return keyDB.Atomically(func(keyDB *KeyDB) error {
+			return keyDB.AddSession(sessionKey, rootKeyHash, chainKey, send, recv)
+		})
 	}
+	tx := keyDB.tx
 
 	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
@@ -88,12 +90,6 @@ func (keyDB *KeyDB) AddSession(
 		}
 	}
 
-	// commit transaction
-	if err := tx.Commit(); err != nil {
-		tx.Rollback()
-		return log.Error(err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 547c4302c6136764c4c6007761594f49f950083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:45 +0000
Subject: [PATCH 69/80] fix: do not lose messages if fetching or storing them
 fails in between

---
 ctrlengine/msg.go | 46 ++++++++++++++++++++++++++------------------
 msgdb/inqueue.go  | 49 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 76 insertions(+), 19 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index cb644de..d80c802 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -537,7 +537,13 @@ func muteprotoFetch(
 			}
 		}
 	}()
-	firstMessage := true
+	type fetchedMessage struct {
+		messageID   string
+		receiveTime int64
+		msg         string
+	}
+	var fetched []fetchedMessage // newest message first
+	var known string             // ID of newest message known already
 	cache, err := msgDB.GetMessageIDCache(myID, contactID)
 	if err != nil {
 		return 0, err
@@ -564,22 +570,15 @@ func muteprotoFetch(
 		messageID := parts[1]
 		log.Debugf("read: MESSAGEID:\t%s", messageID)
 		if cache[messageID] {
-			// message known -> abort fetching messages and remove old IDs from cache
+			// message known -> abort fetching messages
 			log.Debug("write: QUIT")
 			fmt.Fprintln(cmdW, "QUIT")
-			err := msgDB.RemoveMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
+			known = messageID
 			break
 		} else {
-			// message unknown -> fetch it and add messageID to cache
+			// message unknown -> fetch it
 			log.Debug("write: NEXT")
 			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
 		}
 		// read message
 		stop := make(chan uint64)
@@ -630,19 +629,28 @@ func muteprotoFetch(
 
 		stop <- length
 		<-done
-		err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
-		if err != nil {
-			return 0, err
-		}
-		if firstMessage {
-			newMessageTime = receiveTime
-			firstMessage = false
-		}
+		fetched = append(fetched, fetchedMessage{messageID, receiveTime, outbuf.String()})
 		outbuf.Reset()
 	}
 	if err := cmd.Wait(); err != nil {
 		return 0, err
 	}
+	// All messages have been fetched, store the oldest one first: Fetching stops
+	// at a known message, therefore none may be stored before all older ones.
+	for i := len(fetched) - 1; i >= 0; i-- {
+		f := fetched[i]
+		err := msgDB.AddFetched(myID, contactID, f.messageID, f.receiveTime, f.msg)
+		if err != nil {
+			return 0, err
+		}
+		newMessageTime = f.receiveTime
+	}
+	if known != "" {
+		// remove old IDs from cache
+		if err := msgDB.RemoveMessageIDCache(myID, contactID, known); err != nil {
+			return 0, log.Error(err)
+		}
+	}
 	return
 }
 
diff --git a/msgdb/inqueue.go b/msgdb/inqueue.go
index 9c95dae..12ee0e9 100644
--- a/msgdb/inqueue.go
+++ b/msgdb/inqueue.go
@@ -39,6 +39,55 @@ func (msgDB *MsgDB) AddInQueue(myID, contactID string, date int64, msg string) e
 	return nil
 }
 
+// AddFetched adds the given message corresponding to myID and contactID (can
+// be nil) to the inqueue and its messageID to the message ID cache.
+func (msgDB *MsgDB) AddFetched(
+	myID, contactID, messageID string,
+	date int64,
+	msg string,
+) error {
+	if err := identity.IsMapped(myID); err != nil {
+		return log.Error(err)
+	}
+	if contactID != "" {
+		if err := identity.IsMapped(contactID); err != nil {
+			return log.Error(err)
+		}
+	}
+	if messageID == "" {
+		return log.Error(ErrNilMessageID)
+	}
+	tx, err := msgDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	defer tx.Rollback() // does nothing after the commit
+	var mID int64
+	err = tx.Stmt(msgDB.getNymUIDQuery).QueryRow(myID).Scan(&mID)
+	if err != nil {
+		return log.Error(err)
+	}
+	var cID int64
+	if contactID != "" {
+		err := tx.Stmt(msgDB.getContactUIDQuery).QueryRow(mID, contactID).Scan(&cID)
+		if err != nil {
+			return log.Error(err)
+		}
+	}
+	_, err = tx.Stmt(msgDB.addInQueueQuery).Exec(mID, cID, date, msg)
+	if err != nil {
+		return log.Error(err)
+	}
+	_, err = tx.Stmt(msgDB.addMessageIDCacheQuery).Exec(mID, cID, messageID)
+	if err != nil {
+		return log.Error(err)
+	}
+	if err := tx.Commit(); err != nil {
+		return log.Error(err)
+	}
+	return nil
+}
+
 // GetInQueue returns the first entry in the inqueue.
 func (msgDB *MsgDB) GetInQueue() (
 	iqIdx int64,
-- 
2.43.0


From 2c534c26e58aa884aaa241c344984997c7e119cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 70/80] fix: do not let a message that cannot be processed
 block all others

---
 ctrlengine/msg.go | 39 ++++++++++++++++++++++++++++++++++-----
 msgdb/inqueue.go  | 13 ++++++++++++-
 msgdb/msgdb.go    |  2 +-
 3 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index d80c802..c4f391b 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -720,14 +720,42 @@ func mutecryptDecrypt(
 	return
 }
 
+// procInQueue processes all messages in the inqueue. Messages which fail stay
+// there, but do not block the others. The first failure is returned.
 func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
+	var failed error
+	var start int64
+	for {
+		current := int64(-1)
+		err := ce.procInQueueFrom(c, host, start, &current)
+		if failed == nil {
+			failed = err
+		}
+		if err == nil || current < 0 {
+			return failed
+		}
+		log.Warnf("ctrlengine: message in inqueue failed (iqIdx=%d): %s", current, err)
+		start = current + 1
+	}
+}
+
+// procInQueueFrom processes the messages in the inqueue from index start on,
+// until one fails, and sets current to the index of the one being processed.
+func (ce *CtrlEngine) procInQueueFrom(
+	c *cli.Context,
+	host string,
+	start int64,
+	current *int64,
+) error {
 	log.Debug("procInQueue()")
 	for {
 		// get message from msgDB
-		iqIdx, myID, contactID, msg, envelope, err := ce.msgDB.GetInQueue()
+		iqIdx, myID, contactID, msg, envelope, err := ce.msgDB.GetInQueueFrom(start)
 		if err != nil {
+			*current = -1
 			return err
 		}
+		*current = iqIdx
 		if myID == "" {
 			log.Debug("no more messages in inqueue")
 			break // no more messages in inqueue
@@ -820,9 +848,7 @@ func (ce *CtrlEngine) msgFetch(
 	host string,
 ) error {
 	// process old messages in inqueue
-	if err := ce.procInQueue(c, host); err != nil {
-		return err
-	}
+	failed := ce.procInQueue(c, host)
 
 	nyms, err := ce.getNyms(id, all)
 	if err != nil {
@@ -855,7 +881,10 @@ func (ce *CtrlEngine) msgFetch(
 	}
 
 	// process new messages in inqueue
-	return ce.procInQueue(c, host)
+	if err := ce.procInQueue(c, host); err != nil {
+		return err
+	}
+	return failed
 }
 
 func (ce *CtrlEngine) msgList(w io.Writer, id string) error {
diff --git a/msgdb/inqueue.go b/msgdb/inqueue.go
index 12ee0e9..a02031e 100644
--- a/msgdb/inqueue.go
+++ b/msgdb/inqueue.go
@@ -94,11 +94,22 @@ func (msgDB *MsgDB) GetInQueue() (
 	myID, contactID, msg string,
 	envelope bool,
 	err error,
+) {
+	return msgDB.GetInQueueFrom(0)
+}
+
+// GetInQueueFrom returns the first entry in the inqueue with an index of at
+// least start.
+func (msgDB *MsgDB) GetInQueueFrom(start int64) (
+	iqIdx int64,
+	myID, contactID, msg string,
+	envelope bool,
+	err error,
 ) {
 	var mID int64
 	var cID int64
 	var env int64
-	err = msgDB.getInQueueQuery.QueryRow().Scan(&iqIdx, &mID, &cID, &msg, &env)
+	err = msgDB.getInQueueQuery.QueryRow(start).Scan(&iqIdx, &mID, &cID, &msg, &env)
 	switch {
 	case err == sql.ErrNoRows:
 		return 0, "", "", "", false, nil
diff --git a/msgdb/msgdb.go b/msgdb/msgdb.go
index 9ad846f..302a7fa 100644
--- a/msgdb/msgdb.go
+++ b/msgdb/msgdb.go
@@ -195,7 +195,7 @@ CREATE TABLE MessageIDCache(
 	setResendOutQueueQuery      = "UPDATE OutQueue SET Resend=1 WHERE OQIdx=?;"
 	clearResendOutQueueQuery    = "UPDATE OutQueue SET Resend=0 WHERE Self=? AND Resend=1;"
 	addInQueueQuery             = "INSERT INTO InQueue (MyID, ContactID, Date, Msg, Envelope) VALUES (?, ?, ?, ?, 1);"
-	getInQueueQuery             = "SELECT IQIdx, MyID, ContactID, Msg, Envelope FROM InQueue ORDER BY IQIdx ASC LIMIT 1;"
+	getInQueueQuery             = "SELECT IQIdx, MyID, ContactID, Msg, Envelope FROM InQueue WHERE IQIdx>=? ORDER BY IQIdx ASC LIMIT 1;"
 	getInQueueIDsQuery          = "SELECT MyID, ContactID, Date FROM InQueue WHERE IQIdx=?;"
 	setInQueueQuery             = "UPDATE InQueue SET Msg=?, Envelope=0 WHERE IQIdx=?;"
 	removeInQueueQuery          = "DELETE FROM InQueue WHERE IQIdx=?;"
-- 
2.43.0


From 6e2e343c287da64a584cf56ea076e5cc882467f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:52 +0000
Subject: [PATCH 71/80] fix: recognise copies of messages that have been
 decrypted before

---
 cryptengine/keystore.go | 9 +++++++++
 ctrlengine/msg.go       | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/cryptengine/keystore.go b/cryptengine/keystore.go
index 7c01133..fe73585 100644
--- a/cryptengine/keystore.go
+++ b/cryptengine/keystore.go
@@ -124,6 +124,15 @@ func (ce *CryptEngine) GetMessageKey(
 	msgIndex uint64,
 ) (*[64]byte, error) {
 	key, err := ce.keyDB.GetMessageKey(sessionKey, sender, msgIndex)
+	if err == sql.ErrNoRows {
+		n, err := ce.NumMessageKeys(sessionKey)
+		if err != nil {
+			return nil, err
+		}
+		if msgIndex < n {
+			return nil, log.Error(session.ErrMessageKeyUsed)
+		}
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index c4f391b..cfe84ae 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -28,6 +28,7 @@ import (
 	"github.com/mutecomm/mute/mix/nymaddr"
 	"github.com/mutecomm/mute/msg"
 	mimeMsg "github.com/mutecomm/mute/msg/mime"
+	"github.com/mutecomm/mute/msg/session"
 	"github.com/mutecomm/mute/msgdb"
 	"github.com/mutecomm/mute/serviceguard/client"
 	"github.com/mutecomm/mute/uid/identity"
@@ -697,6 +698,12 @@ func mutecryptDecrypt(
 				"could not decrypt pre-header, message dropped\n")
 			return "", "", nil
 		}
+		if strings.HasSuffix(errstr, session.ErrMessageKeyUsed.Error()) {
+			log.Warn("message has been decrypted before, copy dropped")
+			fmt.Fprintf(statusFP,
+				"message has been decrypted before, copy dropped\n")
+			return "", "", nil
+		}
 		return "", "", log.Errorf("%s: %s", err, errstr)
 	}
 	// TODO: parse and process signature!
-- 
2.43.0


From d05b274eba5bb4590ad98d4b05d4f7e7f53ddedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:22 +0000
Subject: [PATCH 72/80] fix: recognise an expired token if the answer of the
 mix is quoted

net/textproto quotes the text of SMTP errors in current Go versions, so the
message of the mix is not a suffix of the error of muteproto anymore and the
message stayed in the outqueue forever.
---
 ctrlengine/msg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index cfe84ae..11f2a7a 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -333,8 +333,8 @@ func (ce *CtrlEngine) procOutQueue(
 			// message all over again.
 			// Matching the error message string is not optimal, but the best
 			// available solution since the error results from calling another
-			// binary (muteproto).
-			if strings.HasSuffix(err.Error(), client.ErrFinal.Error()) {
+			// binary (muteproto). The error message might be quoted.
+			if strings.Contains(err.Error(), client.ErrFinal.Error()) {
 				log.Debug("retract")
 				if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
 					return err
-- 
2.43.0


From edb967bf71d78e2d826f1241a7672fd9290b66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:12 +0000
Subject: [PATCH 73/80] fix: refuse a key exchange with the own key if its
 ignored bit is set

---
 cipher/curve25519.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cipher/curve25519.go b/cipher/curve25519.go
index 99a8af7..f02e8b7 100644
--- a/cipher/curve25519.go
+++ b/cipher/curve25519.go
@@ -62,6 +62,12 @@ func (c *Curve25519Key) SetPrivateKey(key []byte) error {
 	return nil
 }
 
+// equalKeys reports whether a and b are the same curve25519 public key. The most
+// significant bit of the last byte is ignored, as it is in the key exchange.
+func equalKeys(a, b []byte) bool {
+	return bytes.Equal(a[:31], b[:31]) && a[31]&127 == b[31]&127
+}
+
 // ECDH computes a Diffie-Hellman (DH) key exchange over the elliptic curve (EC)
 // curve25519. If ownPublicKey is given it is used to check for the key
 // reflection attack. Otherwise it is derived from privateKey.
@@ -85,7 +91,7 @@ func ECDH(privateKey, peersPublicKey, ownPublicKey *[32]byte) (*[32]byte, error)
 		curve25519.ScalarBaseMult(&publicKey, privateKey)
 		pubKey = publicKey[:]
 	}
-	if bytes.Equal(pubKey, peersPublicKey[:]) {
+	if equalKeys(pubKey, peersPublicKey[:]) {
 		return nil, log.Errorf("cipher: curve25519.ECDH(): publicKey == peersPublicKey")
 	}
 	// perform Diffie-Hellman key exchange
-- 
2.43.0


From 698203c2a4fc27148860fdb1a0ef172ddde2e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:22 +0000
Subject: [PATCH 74/80] fix: renew the keys of a conversation if both sides
 start it at once

---
 msg/decrypt.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 1223d87..abb195d 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -247,12 +247,23 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 				log.Debug("h.NextRecipientSessionPubSeen is defined")
 			}
 			if h.NextSenderSessionPub != nil {
+				// if both sides have set their NextSenderSessionPub without
+				// knowing of each other, the 'smaller' one has to answer
+				crossed := ss.NextSenderSessionPub != nil &&
+					ss.NextRecipientSessionPubSeen == nil &&
+					h.NextRecipientSessionPubSeen == nil && recipient < sender
 				// if other side has set its NextSenderSessionPubKey we set
 				// ours immediately
-				if ss.NextSenderSessionPub == nil {
+				if ss.NextSenderSessionPub == nil || crossed {
 					// prepare upcoming session, but do not switch to it yet
-					nextSenderSession, err := setNextSenderSessionPub(args.KeyStore, ss,
-						sessionStateKey, args.Rand)
+					var nextSenderSession *uid.KeyEntry
+					if crossed {
+						nextSenderSession, err = getSessionKey(args.KeyStore,
+							ss.NextSenderSessionPub.HASH)
+					} else {
+						nextSenderSession, err = setNextSenderSessionPub(args.KeyStore,
+							ss, sessionStateKey, args.Rand)
+					}
 					if err != nil {
 						return "", "", err
 					}
-- 
2.43.0


From a833d8443865a7a659765d756f825c2844b7325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 75/80] fix: extend accounts at the server they are at

---
 mix/client/accountrpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..437a146 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
-- 
2.43.0


From d329e5531fe62622c2b5cb2293f73874ed85f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 76/80] fix: do not panic if an account server lists something
 that is no message

---
 mix/client/accountrpc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 437a146..0a95087 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -252,8 +252,10 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
-
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				return nil, 0, ErrProto
+			}
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
 				err = ErrProto
-- 
2.43.0


From 07f7e0c46367a8d45897da2f46dfea2c8d65fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 77/80] fix: do not return a part of a message list as the list

---
 mix/client/accountrpc.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 0a95087..e3f958c 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -258,39 +258,34 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 			}
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			ReadTime, ok := x["ReadTime"].(float64)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uks, ok := x["UserKey"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			uk, err := hex.DecodeString(uks)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			ukh := new([ed25519.PublicKeySize]byte)
 			copy(ukh[:], uk)
 
 			mis, ok := x["MessageID"].(string)
 			if !ok {
-				err = ErrProto
-				break
+				return nil, 0, ErrProto
 			}
 			mi, err := hex.DecodeString(mis)
 			if err != nil {
-				break
+				return nil, 0, err
 			}
 			messages = append(messages, MessageMeta{
 				MessageID:       mi,
@@ -300,9 +295,6 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				UserKey:         *ukh,
 			})
 		}
-		if err != nil {
-			return nil, 0, err
-		}
 	}
 	return messages, 0, nil
 }
-- 
2.43.0


From 4462669e95df398b6121c84c7c75b617987a8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 78/80] fix: do not report mails as failed which the mail
 server took

---
 mix/smtpclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..da14d75 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -194,6 +194,7 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// the server has the mail now: an error of QUIT must not lead to a resend
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From 6cda5b4ae8cb5d2dd4a70cd5e119a480fe3c07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 79/80] fix: report a failed greeting as such, and not as
 missing TLS for good

---
 mix/smtpclient/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index da14d75..8caee2d 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -125,8 +125,12 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		return ErrRetry
 	}
 	defer client.Close()
-	if mc.HeloHost != "" {
-		client.Hello(mc.HeloHost)
+	helo := mc.HeloHost
+	if helo == "" {
+		helo = "localhost"
+	}
+	if err := client.Hello(helo); err != nil {
+		return mc.parseError(err)
 	}
 	// Do TLS if offered
 	if !mc.NoSSL {
-- 
2.43.0


From 98fdd65f7aef2b01dc4c5e227695f018e496877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 80/80] fix: recognise the codes of mail server answers without
 text

---
 mix/smtpclient/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index 8caee2d..296e734 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -82,7 +82,7 @@ func (mc *MailClient) parseError(err error) error {
 	}
 	mc.LastError = err
 	str := err.Error()
-	str = strings.Trim(str, " \t")
+	str = strings.TrimLeft(str, " \t")
 	pos := strings.Index(str, " ")
 	if pos > 0 {
 		code := str[0:pos]
-- 
2.43.0

