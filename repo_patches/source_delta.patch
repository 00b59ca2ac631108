From 08af71aabed9ae4dd6d59bcffedf9354e762abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:43 +0000
Subject: [PATCH 01/26] fix: answer requests for empty files and directories

The worker turned an empty result into "no data", so that reading an empty
file or directory was retried and then failed forever.
---
 requester/requester.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..7a5c25f 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,6 +155,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
+					if err == nil {
+						// Empty data is an answer, too.
+						return fileData, nil
+					}
 					if len(fileData) > 0 {
 						return fileData, err
 					}
@@ -165,6 +169,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
+					if err == nil {
+						// Empty data is an answer, too.
+						return dirData, nil
+					}
 					if len(dirData) > 0 {
 						return dirData, err
 					}
-- 
2.43.0


From 9c11d5df8ce41e98c5815af91c5955315c6b0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:43 +0000
Subject: [PATCH 02/26] fix: do not serve data that came with an error

If the backend returned partial data together with an error, the data was
cached and reported as a success to everybody.
---
 requester/requester.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/requester/requester.go b/requester/requester.go
index 7a5c25f..5cdc379 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -131,6 +131,10 @@ func (r *Requester) performRequestAndCache(
 		wt.Lock()
 
 		data, err := request()
+		if err != nil {
+			// Whatever came with an error must not be served as good data.
+			data = nil
+		}
 		cache.Set(key, genCacheEntry{data: data, err: err})
 
 		wt.cv.Broadcast()
-- 
2.43.0


From 0d471d598adf9b483771a7ab29b227d25ce7a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:43 +0000
Subject: [PATCH 03/26] fix: do not block a worker on a request that gave up

A request that timed out never receives from its response channel, so the
worker handling it blocked forever, with an in-progress entry left in the
cache that made the item permanently unanswerable.
---
 requester/makerequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..7da2eb1 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From a583b92a907dea37b2a8031e9d7c2172170b556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 04/26] fix: forget a failed request without dropping newer
 work

A request that found a remembered failure deleted whatever the cache held for
the key by then, including the in-progress entry of another request. That led
to duplicate fetches and to spurious failures with a healthy backend.
---
 requester/makerequest.go |  2 +-
 requester/synccache.go   | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 7da2eb1..eee6f5d 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -65,7 +65,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
-				cache.Delete(key)
+				cache.DeleteFailed(key)
 				continue
 			}
 
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..3d1495f 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -59,6 +59,17 @@ func (s *syncCache) Set(key string, value genCacheEntry) {
 	s.lock.Unlock()
 }
 
+// DeleteFailed deletes the value associated with the key from the cache in a
+// thread-safe way, but only if it is still the record of a failed request. By
+// now another request may have replaced it with work in progress or with data.
+func (s *syncCache) DeleteFailed(key string) {
+	s.lock.Lock()
+	if cacheEntry, found := s.m[key]; found && cacheEntry.err != nil {
+		delete(s.m, key)
+	}
+	s.lock.Unlock()
+}
+
 // Delete deletes the the value associated with the key from the cache in a
 // thread-safe way
 func (s *syncCache) Delete(key string) {
-- 
2.43.0


From 482185b83d21faac704505f9d5173e1bbe84aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 05/26] fix: look up names with an empty IV under the key the
 workers use

DecryptName with an empty IV looked for its answer under a different cache key
than the worker stored it, so it always failed, or returned the answer for
another name and IV whose key looks the same.
---
 requester/makerequest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index eee6f5d..a05bec3 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -24,6 +24,10 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 	if len(arg2) > 0 {
 		key = complexKey(arg1, arg2)
 	}
+	if requestType == workDecryptName {
+		// The key the workers use, also when the IV is empty.
+		key = complexKey(arg1, arg2)
+	}
 
 	for i := 0; i < cacheErrRetryAttempts; i++ {
 		// Return immediately if there is valid data in the cache, otherwise
-- 
2.43.0


From 8a3ef5b40f77415b03e75b5e67b77f81170a64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 06/26] fix: keep the path cache's back links intact when an
 entry is refreshed

---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From f3b7c12e257a689ecb9a58f07a792da46ffe999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 07/26] fix: stat of regular files

---
 filetree/filetree.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..7b2dbb4 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -186,6 +186,10 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 
 	plainBaseName := filepath.Base(cleanPath)
 	cipherPath, err := f.findPath(cleanPath)
+	if err != nil {
+		// Not a directory, but it may still be a file.
+		cipherPath, err = f.findFile(cleanPath)
+	}
 	if err != nil {
 		return statErr(fmt.Sprintf("error finding path: %s", err))
 	}
@@ -264,6 +268,20 @@ func (f *FileTree) findInDir(cipherPath, plainName string) (item os.FileInfo, er
 	return
 }
 
+// findFile returns the ciphertext path of the item, of whatever kind, at the
+// given plaintext path.
+func (f *FileTree) findFile(plainPath string) (string, error) {
+	cipherParentPath, err := f.findPath(filepath.Dir(plainPath))
+	if err != nil {
+		return "", err
+	}
+	item, err := f.findInDir(cipherParentPath, filepath.Base(plainPath))
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(cipherParentPath, item.Name()), nil
+}
+
 // findPath attempts to find the ciphertext path corresponding to the plaintext
 // path by discovering as much as possible about the ciphertext path from the
 // fastCache, and then walking the directory tree down the rest of the way. It
-- 
2.43.0


From 07abc23116275c312a2f24b8e683569796375967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 08/26] fix: read empty files and reject files cut inside the
 first block

---
 filetree/decrypt.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..b2b60b5 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,15 +1,16 @@
 package filetree
 
 import (
+	"errors"
 	"io"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
 )
 
 // readFileID parses the file ID from the header. It returns an error
-// if there is an error parsing or if the file is practically empty.
+// if there is an error parsing or if the header is incomplete.
 func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
-	if len(fileBytes) <= contentenc.HeaderLen {
+	if len(fileBytes) < contentenc.HeaderLen {
 		return nil, io.EOF
 	}
 	buf := fileBytes[:contentenc.HeaderLen]
@@ -21,11 +22,21 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 }
 
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
+	if len(fileBytes) == 0 {
+		// Empty files are stored without a header.
+		return []byte{}, nil
+	}
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
 	if err != nil {
 		return nil, err
 	}
+	if len(fileBytes) == contentenc.HeaderLen {
+		return []byte{}, nil
+	}
+	if plainLength == 0 {
+		return nil, errors.New("incomplete first block")
+	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
-- 
2.43.0


From 4bea906a1d9bdc719edc7de07f7e8a0816f52585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 09/26] fix: reject directory IVs of the wrong length instead
 of crashing

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 7b2dbb4..528645e 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -231,6 +231,9 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	if err != nil {
 		return fmt.Errorf("error reading directory IV: %s", err)
 	}
+	if len(iv) != nametransform.DirIVLen {
+		return fmt.Errorf("directory IV has %d bytes instead of %d", len(iv), nametransform.DirIVLen)
+	}
 	dirListing, err := f.reqCacher.ReadDir(cipherPath)
 	if err != nil {
 		return fmt.Errorf("error listing directory: %s", err)
-- 
2.43.0


From f593cfec504d7eae434d0a158684655dd684ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 10/26] fix: reject overlong encrypted names instead of
 crashing

---
 gocrypt/nametransform/names.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..c16d68a 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -65,6 +65,10 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	if len(bin) > len(pad16(make([]byte, NameMax))) {
+		tlog.Debug.Printf("DecryptName: decoded length %d is too long for a file name", len(bin))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 40d1139f5d588c0ec61f48986b7f200c923fdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 11/26] fix: honour the AESSIV feature flag

---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 528645e..a065a56 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -74,6 +74,9 @@ func Init(
 		return nil, err
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From 257340bc2859ab58e203edb8256173cfdeb8a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 12/26] fix: do not drop entries from a listing because the
 workers are busy

---
 filetree/filetree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index a065a56..3fafac7 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -243,6 +243,11 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	}
 	for _, info := range dirListing {
 		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if err != nil {
+			// The request may have failed for want of a free worker, which
+			// says nothing about the name.
+			rName, err = f.nTransform.DecryptName(info.Name(), iv)
+		}
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 6097ae9af303729c0db18cee3234edccfa60d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 13/26] fix: do not reuse a connection that died while a file
 was read

---
 backend/provider.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..154f6a2 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -43,13 +43,20 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 		}
 		return nil, err
 	}
-	defer p.p.Put(c)
-	defer func() { _ = file.Close() }()
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
+	_ = file.Close()
 	if err != nil {
+		// Test the underlying ssh connection to see if it's still okay.
+		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
+		if sshErr != nil {
+			c.Close()
+		} else {
+			p.p.Put(c)
+		}
 		return nil, err
 	}
+	p.p.Put(c)
 	return buf.Bytes(), nil
 }
 
-- 
2.43.0


From fccd01349f0c3eda53bf38de8722737e78fe1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 14/26] fix: refuse to start with an incomplete config

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..073ea3c 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err = cfg.Validate(); err != nil {
+		log.Fatalln("invalid config file:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From 97f672cdcc81c6d70369d455bcd6622df8db0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 15/26] fix: do not let one client's handshake block the others

---
 main.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/main.go b/main.go
index 073ea3c..c2709d4 100644
--- a/main.go
+++ b/main.go
@@ -105,19 +105,22 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
+		// A client that is slow to handshake must not hold up the others.
+		go func() {
+			// Before use, a handshake must be performed on the incoming
+			// net.Conn.
+			_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+			if err != nil {
+				logger.Println("failed to handshake", err)
+				return
+			}
+			logger.Println("SSH server established")
 
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+			// The incoming Request channel must be serviced.
+			go ssh.DiscardRequests(reqs)
 
-		go handleChannels(chans, reqHandlers, logger)
+			handleChannels(chans, reqHandlers, logger)
+		}()
 	}
 }
 
-- 
2.43.0


From 439013800d104129a75bfa66674e6a4b8d8bc367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 16/26] fix: malformed subsystem request crashes the proxy

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index c2709d4..23b9a88 100644
--- a/main.go
+++ b/main.go
@@ -157,6 +157,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From 69db32f339eee2e1b115ea7715584debdbbd3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 17/26] fix: do not crash on a private key file that is not PEM

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From 154c67c1b62fa0835737e88d6f45a46ddc8b69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 18/26] fix: relative paths recurse forever

---
 filetree/filetree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 3fafac7..b254652 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -303,6 +303,10 @@ func (f *FileTree) findPath(plainPath string) (string, error) {
 		return f.encryptedRoot, nil
 	}
 
+	if !filepath.IsAbs(cleanPath) {
+		return "", fmt.Errorf("%s is not an absolute path", cleanPath)
+	}
+
 	dirMapping, found := f.fastCache.Find(cleanPath)
 	if found {
 		return dirMapping.CiphertextPath, nil
-- 
2.43.0


From 810db94920b8983a9841db6e04c6ea7ac5ea9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 19/26] fix: an empty or all-zero encrypted key unlocks with
 any password

---
 gocrypt/configfile/config_file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..a214d2e 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -233,6 +233,10 @@ func (cf *ConfFile) DecryptMasterKey(password []byte) (masterkey []byte, err err
 	ce.Wipe()
 	ce = nil
 
+	if err == nil && len(masterkey) != cryptocore.KeyLen {
+		// An empty or all-zero EncryptedKey "decrypts" with any password.
+		err = fmt.Errorf("master key has wrong length %d", len(masterkey))
+	}
 	if err != nil {
 		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())
 		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)
-- 
2.43.0


From 8ce37f3f2d7fd73c8cc3dbeae6c807865e0ad5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 20/26] fix: an empty password is an error, not a crash

---
 filetree/filetree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index b254652..4d7939c 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -69,6 +69,10 @@ func Init(
 	if err = f.Close(); err != nil {
 		return nil, err
 	}
+	if len(password) == 0 {
+		// LoadAndDecrypt would return no key and no error.
+		return nil, errors.New("empty password")
+	}
 	masterKey, conf, err := configfile.LoadAndDecrypt(f.Name(), password)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ffefd1ab7eec76ba69862c57d46dd66fd28138fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 21/26] fix: directory IVs with the same hash share cached
 names

---
 requester/complexkey.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/requester/complexkey.go b/requester/complexkey.go
index 83a5c98..9fd910f 100644
--- a/requester/complexkey.go
+++ b/requester/complexkey.go
@@ -2,19 +2,10 @@ package requester
 
 import (
 	"fmt"
-
-	"github.com/dchest/siphash"
-)
-
-// Code adapted from github.com/cornelk/hashmap
-// Under the Apache 2.0 license:
-// https://github.com/cornelk/hashmap/blob/33e58823eb9d4426a8d2b604cece33c3c15df8cc/LICENSE
-const (
-	// generated by splitting the md5 sum of "hashmap"
-	sipHashKey1 = 0xdda7806a4847ec61
-	sipHashKey2 = 0xb5940c2623a5aabd
 )
 
+// complexKey combines both values in full: with a mere hash of b, the remote
+// could pick two directory IVs that share their cached names.
 func complexKey(s string, b []byte) string {
-	return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))
+	return fmt.Sprintf("%s+%x", s, b)
 }
-- 
2.43.0


From 3473e9bc84bc7ad72ace99ca7e2f7df696c4a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 22/26] fix: ask again when a wrong passphrase yields an
 unparsable key

---
 config/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index cf9b8fe..483d491 100644
--- a/config/config.go
+++ b/config/config.go
@@ -77,7 +77,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
 			if err == nil {
 				return signer, nil
-			} else if err != x509.IncorrectPasswordError {
+			} else if err != x509.IncorrectPasswordError && !canDecrypt(privateBytes, passphrase) {
 				return nil, err
 			}
 		}
@@ -92,6 +92,15 @@ func isPrivateKeyEncrypted(key []byte) bool {
 	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
+// canDecrypt tells whether the key can be decrypted with the passphrase. About
+// one in 256 wrong passphrases passes this, but what comes out is garbage that
+// cannot be parsed.
+func canDecrypt(key, passphrase []byte) bool {
+	block, _ := pem.Decode(key)
+	_, err := x509.DecryptPEMBlock(block, passphrase)
+	return err == nil
+}
+
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
 	prompt := fmt.Sprintf("Enter passphrase for gocryptfs root at '%s': ", c.Remote.FileRoot)
 	return pwReader.ReadPassword(prompt)
-- 
2.43.0


From 9b1ae62ef86070161a8b807d21659198097232b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 23/26] fix: do not reuse a connection whose SFTP session has
 ended

The liveness test after a failed call pinged the SSH connection, which
stays up when only the SFTP session on it ends (the remote's sftp-server
exits, say). The dead session went back into the pool and every call
that drew it failed.
---
 backend/pool.go     | 11 +++++++++++
 backend/provider.go | 16 ++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/backend/pool.go b/backend/pool.go
index a386333..519eb2d 100644
--- a/backend/pool.go
+++ b/backend/pool.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"errors"
 	"fmt"
+	"os"
 
 	"github.com/pkg/sftp"
 	"golang.org/x/crypto/ssh"
@@ -31,6 +32,16 @@ func newConn(remoteAddr string, clientConfig *ssh.ClientConfig) (*conn, error) {
 	return c, nil
 }
 
+// ping returns an error unless the SFTP session still answers. The session can
+// end while the SSH connection that carries it stays up.
+func (c *conn) ping() error {
+	_, err := c.sftpConn.Getwd()
+	if _, refused := err.(*sftp.StatusError); refused || os.IsNotExist(err) {
+		return nil
+	}
+	return err
+}
+
 func (c *conn) Close() {
 	if c.sshConn != nil {
 		_ = c.sshConn.Close()
diff --git a/backend/provider.go b/backend/provider.go
index 154f6a2..ba53323 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -34,8 +34,8 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	file, err := c.sftpConn.Open(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
+		// Test the underlying connection to see if it's still okay.
+		sshErr := c.ping()
 		if sshErr != nil {
 			c.Close()
 		} else {
@@ -47,8 +47,8 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	_, err = file.WriteTo(buf)
 	_ = file.Close()
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
+		// Test the underlying connection to see if it's still okay.
+		sshErr := c.ping()
 		if sshErr != nil {
 			c.Close()
 		} else {
@@ -69,8 +69,8 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 	}
 	listing, err := c.sftpConn.ReadDir(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
+		// Test the underlying connection to see if it's still okay.
+		sshErr := c.ping()
 		if sshErr != nil {
 			c.Close()
 		} else {
@@ -91,8 +91,8 @@ func (p *Provider) Stat(path string) (os.FileInfo, error) {
 	}
 	stat, err := c.sftpConn.Stat(path)
 	if err != nil {
-		// Test the underlying ssh connection to see if it's still okay.
-		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
+		// Test the underlying connection to see if it's still okay.
+		sshErr := c.ping()
 		if sshErr != nil {
 			c.Close()
 		} else {
-- 
2.43.0


From 0e729ada9eba9fe292b3538a6c5e14462a93370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 24/26] fix: a connection lost while a file is read truncates
 the file

pkg/sftp turns the loss of the connection into io.EOF, which File.WriteTo
takes for the end of the file: ReadFile reported success with only the
bytes that had arrived so far.
---
 backend/provider.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/backend/provider.go b/backend/provider.go
index ba53323..8dd92b9 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -45,7 +45,11 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	}
 	buf := new(bytes.Buffer)
 	_, err = file.WriteTo(buf)
-	_ = file.Close()
+	// The client reports a connection lost while reading as the end of the
+	// file; then the file cannot be closed any more either.
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		// Test the underlying connection to see if it's still okay.
 		sshErr := c.ping()
-- 
2.43.0


From b5de854b77babab452dc83b1194bb91142a8c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 25/26] fix: a connection lost while a directory is listed
 truncates the listing

As with files, pkg/sftp reports success with the entries that had arrived
so far.
---
 backend/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/provider.go b/backend/provider.go
index 8dd92b9..b6612a1 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -72,6 +72,11 @@ func (p *Provider) ReadDir(path string) ([]os.FileInfo, error) {
 		return nil, err
 	}
 	listing, err := c.sftpConn.ReadDir(path)
+	if err == nil {
+		// The client reports a connection lost while listing as the end of
+		// the directory.
+		err = c.ping()
+	}
 	if err != nil {
 		// Test the underlying connection to see if it's still okay.
 		sshErr := c.ping()
-- 
2.43.0


From 63d3d5ddc195137e503f1890f7058d0533296546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:38 +0000
Subject: [PATCH 26/26] fix: a malformed SFTP packet crashes the proxy

---
 main.go        |  2 +-
 packetguard.go | 66 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+), 1 deletion(-)
 create mode 100644 packetguard.go

diff --git a/main.go b/main.go
index 23b9a88..fd951c4 100644
--- a/main.go
+++ b/main.go
@@ -170,7 +170,7 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 		}
 	}(requests)
 
-	server := sftp.NewRequestServer(channel, reqHandlers)
+	server := sftp.NewRequestServer(&packetGuard{Channel: channel}, reqHandlers)
 
 	if err := server.Serve(); err == io.EOF {
 		server.Close()
diff --git a/packetguard.go b/packetguard.go
new file mode 100644
index 0000000..f4d28d0
--- /dev/null
+++ b/packetguard.go
@@ -0,0 +1,66 @@
+package main
+
+import (
+	"encoding/binary"
+	"errors"
+	"io"
+
+	"golang.org/x/crypto/ssh"
+)
+
+// maxPacket is the longest SFTP packet accepted from a client, as in OpenSSH.
+const maxPacket = 256 * 1024
+
+var errMalformedPacket = errors.New("malformed SFTP packet")
+
+// packetGuard is a channel that ends at the first SFTP packet that the sftp
+// package cannot take: it panics, in a goroutine of its own, on empty packets,
+// unknown packet types and SETSTAT packets without attributes, and a panic
+// ends the service for all clients.
+type packetGuard struct {
+	ssh.Channel
+	rest []byte // of the packet being read
+}
+
+func (g *packetGuard) Read(p []byte) (int, error) {
+	if len(g.rest) == 0 {
+		var header [4]byte
+		if _, err := io.ReadFull(g.Channel, header[:]); err != nil {
+			return 0, err
+		}
+		size := binary.BigEndian.Uint32(header[:])
+		if size == 0 || size > maxPacket {
+			_ = g.Channel.Close()
+			return 0, errMalformedPacket
+		}
+		packet := make([]byte, size)
+		if _, err := io.ReadFull(g.Channel, packet); err != nil {
+			return 0, err
+		}
+		if !isWellFormed(packet) {
+			_ = g.Channel.Close()
+			return 0, errMalformedPacket
+		}
+		g.rest = append(header[:], packet...)
+	}
+	n := copy(p, g.rest)
+	g.rest = g.rest[n:]
+	return n, nil
+}
+
+// isWellFormed tells whether the sftp package can take a packet.
+func isWellFormed(packet []byte) bool {
+	const init, open, setstat, fsetstat, symlink, extended = 1, 3, 9, 10, 20, 200
+	switch t := packet[0]; {
+	case t == setstat || t == fsetstat:
+		// id, path or handle, attribute flags
+		if len(packet) < 1+4+4 {
+			return false
+		}
+		name := uint64(binary.BigEndian.Uint32(packet[5:]))
+		return uint64(len(packet)) >= 1+4+4+name+4
+	case t == init || t >= open && t <= symlink || t == extended:
+		return true
+	}
+	return false
+}
-- 
2.43.0

