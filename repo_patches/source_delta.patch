From 90ea2a7d34741945829566828c18cc7179166e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 01/24] fix: replace the database file as a whole when
 committing

A commit truncated and rewrote the file in place, so an interrupted or failed
write destroyed the previously stored database.
---
 database.go            |  3 +-
 internal/utils/file.go | 63 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 19b834e..c30f980 100644
--- a/database.go
+++ b/database.go
@@ -21,7 +21,6 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -459,7 +458,7 @@ func (db *Database) commit() error {
 	if err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+	if err := utils.WriteFileBytes(db.path, data, 0600); err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
diff --git a/internal/utils/file.go b/internal/utils/file.go
index d4072cb..2ae5355 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -15,9 +15,11 @@
 package utils
 
 import (
+	"errors"
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 func expandHomePath(fp string) (string, error) {
@@ -41,3 +43,64 @@ func ReadFileBytes(fp string) ([]byte, error) {
 	}
 	return ioutil.ReadFile(fp)
 }
+
+// WriteFileBytes writes a file by replacing it as a whole: the contents go to
+// a temporary file in the same directory, which then takes the place of the
+// target. An interrupted or failed write leaves the previous contents intact.
+func WriteFileBytes(fp string, data []byte, perm os.FileMode) error {
+	target := fp
+	if resolved, err := filepath.EvalSymlinks(fp); err == nil {
+		target = resolved
+	} else if _, err := os.Lstat(fp); err == nil {
+		// Dangling symbolic link.
+		return ioutil.WriteFile(fp, data, perm)
+	}
+	fileInfo, err := os.Stat(target)
+	exists := err == nil
+	if exists {
+		if !fileInfo.Mode().IsRegular() {
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		// Replacing a file does not require the permission to write to it.
+		f, err := os.OpenFile(target, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		f.Close()
+		perm = fileInfo.Mode().Perm()
+	}
+	tmp, err := ioutil.TempFile(filepath.Dir(target), ".go-identity-*.tmp")
+	if err != nil {
+		if !exists || os.IsPermission(err) {
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		return err
+	}
+	if err := writeAndClose(tmp, data, perm, exists); err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	if err := os.Rename(tmp.Name(), target); err != nil {
+		os.Remove(tmp.Name())
+		if errors.Is(err, syscall.EBUSY) {
+			// The target is a mount point, e.g. a file mounted to a container.
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		return err
+	}
+	return nil
+}
+
+func writeAndClose(f *os.File, data []byte, perm os.FileMode, chmod bool) error {
+	_, err := f.Write(data)
+	if err == nil && chmod {
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
-- 
2.43.0


From 76e96f9afb15c5304b529ba99b9d4e4fd94352b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 02/24] fix: do not change the path of the database while
 copying it

Copy temporarily replaced the path, which GetPath reads without a lock.
---
 database.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/database.go b/database.go
index c30f980..49555db 100644
--- a/database.go
+++ b/database.go
@@ -443,23 +443,24 @@ func (db *Database) Save() error {
 func (db *Database) Copy(fp string) error {
 	db.mu.Lock()
 	defer db.mu.Unlock()
-	path := db.path
-	db.path = fp
-	err := db.commit()
-	db.path = path
-	return err
+	return db.commitTo(fp)
 }
 
-// commit writes the database contents to a file.
+// commit writes the database contents to its file.
 func (db *Database) commit() error {
+	return db.commitTo(db.path)
+}
+
+// commitTo writes the database contents to a file.
+func (db *Database) commitTo(fp string) error {
 	db.Revision++
 	db.LastModified = time.Now().UTC()
 	data, err := json.MarshalIndent(db, "", "  ")
 	if err != nil {
-		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
-	if err := utils.WriteFileBytes(db.path, data, 0600); err != nil {
-		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
+	if err := utils.WriteFileBytes(fp, data, 0600); err != nil {
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
 	return nil
 }
-- 
2.43.0


From bfedb3ffeb6f26b88c06fdf4d9d52939e5c8d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 03/24] fix: restore revision and modification time when a
 commit fails

---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index 49555db..f5a57ca 100644
--- a/database.go
+++ b/database.go
@@ -453,13 +453,16 @@ func (db *Database) commit() error {
 
 // commitTo writes the database contents to a file.
 func (db *Database) commitTo(fp string) error {
+	revision, lastModified := db.Revision, db.LastModified
 	db.Revision++
 	db.LastModified = time.Now().UTC()
 	data, err := json.MarshalIndent(db, "", "  ")
 	if err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
 	if err := utils.WriteFileBytes(fp, data, 0600); err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
 	return nil
-- 
2.43.0


From 7f22edbbf2820adf5eddcf91fdd24bcbac8230a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 04/24] fix: undo the changes to a user when a commit fails

An operation which failed to store the database left its changes in memory,
from where the next successful commit would have stored them.
---
 database.go | 22 ++++++++++++++++++++++
 user.go     |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index f5a57ca..25da35d 100644
--- a/database.go
+++ b/database.go
@@ -292,6 +292,12 @@ func (db *Database) AddUser(r *requests.Request) error {
 	db.Users = append(db.Users, user)
 
 	if err := db.commit(); err != nil {
+		delete(db.refUsername, username)
+		delete(db.refID, user.ID)
+		for _, emailAddress := range emailAddresses {
+			delete(db.refEmailAddress, emailAddress)
+		}
+		db.Users = db.Users[:len(db.Users)-1]
 		return errors.ErrAddUser.WithArgs(username, err)
 	}
 	return nil
@@ -491,10 +497,12 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	prev := *user
 	if err := user.AddPublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = prev
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -530,10 +538,12 @@ func (db *Database) DeletePublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.ID, err)
 	}
+	prev := *user
 	if err := user.DeletePublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = prev
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -549,6 +559,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
+	prev := *user
 	for {
 		hk, err := NewPassword(s)
 		if err != nil {
@@ -573,6 +584,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 
 	if err := db.commit(); err != nil {
+		*user = prev
+		delete(db.refAPIKey, r.Key.Prefix)
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -586,11 +599,14 @@ func (db *Database) DeleteAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.ID, err)
 	}
+	prev := *user
 	if err := user.DeleteAPIKey(r); err != nil {
 		return err
 	}
 	delete(db.refAPIKey, r.Key.Prefix)
 	if err := db.commit(); err != nil {
+		*user = prev
+		db.refAPIKey[r.Key.Prefix] = user
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -629,11 +645,13 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	if err := db.checkPasswordPolicyCompliance(r.User.Password); err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
+	prev := *user
 	if err := user.ChangePassword(r, db.Policy.Password.KeepVersions); err != nil {
 		return err
 	}
 	// if db.Policy.Password.KeepVersions
 	if err := db.commit(); err != nil {
+		*user = prev
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
 	return nil
@@ -696,10 +714,12 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	prev := *user
 	if err := user.AddMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = prev
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
 	return nil
@@ -732,10 +752,12 @@ func (db *Database) DeleteMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
+	prev := *user
 	if err := user.DeleteMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		*user = prev
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
 	return nil
diff --git a/user.go b/user.go
index 87e0e15..79c33fe 100644
--- a/user.go
+++ b/user.go
@@ -159,7 +159,10 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 	if len(user.Passwords) > 0 {
 		for i, p := range user.Passwords {
 			if !p.Disabled {
-				p.Disable()
+				// The existing entry stays as is until the change is committed.
+				disabled := *p
+				disabled.Disable()
+				p = &disabled
 			}
 			passwords = append(passwords, p)
 			if i > keepVersions {
-- 
2.43.0


From 7e7b368c812f1cff195ee67dfc9ae5ecc0744642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 05/24] fix: hash passwords as provided

Surrounding white space was removed before hashing but not when matching, so
a user with such a password could not sign in with it.
---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From 148d2538fda0ec403c54fbf51cd3b7609b05e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 06/24] fix: refuse disabled and expired API keys

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 79c33fe..a3ce11d 100644
--- a/user.go
+++ b/user.go
@@ -447,6 +447,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From ceb6d6d8802e5735ad2f5d5fe86182dbcec98892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 07/24] fix: keep no more former passwords than the policy
 allows

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index a3ce11d..d02d173 100644
--- a/user.go
+++ b/user.go
@@ -165,7 +165,7 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 				p = &disabled
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
+			if i+1 >= keepVersions {
 				break
 			}
 		}
-- 
2.43.0


From a211237e522e35cdb2920bb955d22ad1b4f24ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 08/24] fix: hash blank passwords of unknown users

A sign-in attempt with a password of white space did no hashing for an
unknown user, while it did for a known one.
---
 database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 25da35d..ecca8cd 100644
--- a/database.go
+++ b/database.go
@@ -362,7 +362,10 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 	if err != nil {
 		r.Response.Code = 400
 		// Calculate password hash as the means to prevent user discovery.
-		NewPassword(r.User.Password)
+		// The prefix makes the calculation happen for blank passwords, too.
+		if r.User.Password != "" {
+			NewPassword("-" + r.User.Password)
+		}
 		return errors.ErrAuthFailed.WithArgs(err)
 	}
 
-- 
2.43.0


From dd3321600755d2372a7f61f3b893ecde9fdb1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 09/24] fix: state the cause of a failed WebAuthn
 authentication

The text of the error contained an unfilled format verb.
---
 user.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/user.go b/user.go
index d02d173..27f8b3b 100644
--- a/user.go
+++ b/user.go
@@ -299,17 +299,17 @@ func (user *User) VerifyWebAuthnRequest(r *requests.Request) error {
 		}
 		resp, err := token.WebAuthnRequest(r.WebAuthn.Request)
 		if err != nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs(err)
 		}
 		if resp == nil {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("empty response")
 		}
 		if resp.ClientData.Challenge != r.WebAuthn.Challenge {
-			return errors.ErrWebAuthnVerifyRequest
+			return errors.ErrWebAuthnVerifyRequest.WithArgs("challenge mismatch")
 		}
 		return nil
 	}
-	return errors.ErrWebAuthnVerifyRequest
+	return errors.ErrWebAuthnVerifyRequest.WithArgs("token not found")
 }
 
 // GetMailClaim returns primary email address.
-- 
2.43.0


From 301b552d1139089dfa48af8cd6013bcb054fe5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 10/24] fix: generate random strings with crypto/rand

The strings, which serve as API keys and identifiers, came from a generator
seeded with the time, which also is not safe for concurrent use.
---
 random.go | 25 ++++++++++++++++---------
 uuid.go   |  3 +--
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/random.go b/random.go
index 750127d..451a5da 100644
--- a/random.go
+++ b/random.go
@@ -15,21 +15,26 @@
 package identity
 
 import (
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 )
 
 const charset = "abcdefghijklmnopqrstuvwxyz" +
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
-var seed *rand.Rand = rand.New(
-	rand.NewSource(time.Now().UnixNano()),
-)
+// randomInt returns a uniform random number in [0, n).
+func randomInt(n int) int {
+	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		panic(err)
+	}
+	return int(i.Int64())
+}
 
 func gen(length int, charset string) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = charset[seed.Intn(len(charset))]
+		b[i] = charset[randomInt(len(charset))]
 	}
 	return string(b)
 }
@@ -46,10 +51,12 @@ func GetRandomString(i int) string {
 // random lenght is bounded by a and b.
 func GetRandomStringFromRange(a, b int) string {
 	var i int
-	if a > b {
-		i = rand.Intn(a-b) + b
+	if a == b {
+		i = a
+	} else if a > b {
+		i = randomInt(a-b) + b
 	} else {
-		i = rand.Intn(b-a) + a
+		i = randomInt(b-a) + a
 	}
 	return gen(i, charset)
 }
diff --git a/uuid.go b/uuid.go
index 42b8011..e76e1e9 100644
--- a/uuid.go
+++ b/uuid.go
@@ -16,7 +16,6 @@ package identity
 
 import (
 	"github.com/satori/go.uuid"
-	"math/rand"
 	"strings"
 )
 
@@ -33,7 +32,7 @@ func NewRandomString(length int) string {
 	}
 	var b strings.Builder
 	for i := 0; i < length; i++ {
-		b.WriteRune(chars[rand.Intn(len(chars))])
+		b.WriteRune(chars[randomInt(len(chars))])
 	}
 	return b.String()
 }
-- 
2.43.0


From 67afcc986e4980b8577bd152ec70a1a4924d82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 11/24] fix: do not modify MFA tokens when verifying WebAuthn
 requests

The public key was cached in the token while holding the read lock only, so
concurrent authentications raced.
---
 mfa_token.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..b81c4d7 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -61,7 +61,6 @@ type MfaToken struct {
 	Parameters       map[string]string `json:"parameters,omitempty" xml:"parameters,omitempty" yaml:"parameters,omitempty"`
 	Flags            map[string]bool   `json:"flags,omitempty" xml:"flags,omitempty" yaml:"flags,omitempty"`
 	SignatureCounter uint32            `json:"signature_counter,omitempty" xml:"signature_counter,omitempty" yaml:"signature_counter,omitempty"`
-	pubkey           *ecdsa.PublicKey
 }
 
 // MfaDevice is the hardware device associated with MfaToken.
@@ -305,12 +304,12 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	var pubkey *ecdsa.PublicKey
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		var err error
+		if pubkey, err = derivePublicKey(p.Parameters); err != nil {
+			return nil, err
 		}
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
@@ -412,7 +411,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
@@ -506,10 +505,10 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
-func (p *MfaToken) derivePublicKey(params map[string]string) error {
+func derivePublicKey(params map[string]string) (*ecdsa.PublicKey, error) {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-			return errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
+			return nil, errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
 		}
 	}
 
@@ -518,10 +517,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		coord := "curve_" + ltr + "coord"
 		b, err := base64.StdEncoding.DecodeString(params[coord])
 		if err != nil {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
 		}
 		if len(b) != 32 {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
 		}
 		i := new(big.Int)
 		i.SetBytes(b)
@@ -530,11 +529,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
-		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
+		return &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}, nil
 	default:
-		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
+		return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
 	}
-	return nil
 }
 
 func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
-- 
2.43.0


From c17241bfc2eb65b1a6461ea7788bf5004ba2e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 12/24] fix: return a snapshot from GetUser

The returned record kept changing, unsynchronized, with later operations.
---
 database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index ecca8cd..eb5fc61 100644
--- a/database.go
+++ b/database.go
@@ -327,7 +327,9 @@ func (db *Database) GetUser(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrGetUsers.WithArgs(err)
 	}
-	r.Response.Payload = user
+	// The record in the database changes under the lock only.
+	snapshot := *user
+	r.Response.Payload = &snapshot
 	return nil
 }
 
-- 
2.43.0


From b9c2a9f84716927d28f01f714e38980e95abba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 13/24] fix: refuse U2F registrations with mistyped public key
 parameters

The registration document comes from a client; a parameter of an unexpected
JSON type caused a panic.
---
 mfa_token.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index b81c4d7..ce54a4d 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -222,11 +222,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
-			case 2:
+			switch v {
+			case float64(2):
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -235,11 +235,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
-			case -7:
+			switch v {
+			case float64(-7):
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -248,18 +248,26 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
-			case 1:
+			switch v {
+			case float64(1):
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = coord
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = coord
 		}
 
 		switch keyType {
-- 
2.43.0


From f781022b8344622acaeba290127dcf8047f86df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 14/24] fix: refuse null entries in a database file

A null in the list of users, or in a list of a user, caused a panic.
---
 pkg/errors/database.go |  2 ++
 user.go                | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..cdea7a5 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,8 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserNull            StandardError = "user is null"
+	ErrUserNullEntry       StandardError = "user has a null %s"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 27f8b3b..fb2a2d9 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserNull
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,41 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	for _, v := range user.Names {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("name")
+		}
+	}
+	for _, v := range user.EmailAddresses {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("email address")
+		}
+	}
+	for _, v := range user.Passwords {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("password")
+		}
+	}
+	for _, v := range user.PublicKeys {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("public key")
+		}
+	}
+	for _, v := range user.APIKeys {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("API key")
+		}
+	}
+	for _, v := range user.MfaTokens {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("MFA token")
+		}
+	}
+	for _, v := range user.Roles {
+		if v == nil {
+			return errors.ErrUserNullEntry.WithArgs("role")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From f8c5d724a7a89dea527b90ad5309259e6ebc509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 15/24] fix: do not rewrite a database file which fails to load

The defaults of the policy were stored before the users were validated.
---
 database.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.go b/database.go
index eb5fc61..63cd2d9 100644
--- a/database.go
+++ b/database.go
@@ -119,6 +119,7 @@ func NewDatabase(fp string) (*Database, error) {
 		refEmailAddress: make(map[string]*User),
 		refAPIKey:       make(map[string]*User),
 	}
+	var policyChanged bool
 	fileInfo, err := os.Stat(fp)
 	if err != nil {
 		if !os.IsNotExist(err) {
@@ -143,11 +144,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if err := json.Unmarshal(b, db); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if changed := db.enforceDefaultPolicy(); changed {
-			if err := db.commit(); err != nil {
-				return nil, errors.ErrNewDatabase.WithArgs(fp, err)
-			}
-		}
+		policyChanged = db.enforceDefaultPolicy()
 	}
 
 	// db.mu = &sync.RWMutex{}
@@ -186,6 +183,11 @@ func NewDatabase(fp string) (*Database, error) {
 			db.refAPIKey[apiKey.Prefix] = user
 		}
 	}
+	if policyChanged {
+		if err := db.commit(); err != nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+		}
+	}
 	return db, nil
 }
 
-- 
2.43.0


From d382a499cb68b68fd28de4eb16ac902a74d222bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 16/24] fix: find users with a short name or email address

Lookups ignored one-character usernames and email addresses shorter than six
characters, which AddUser accepts.
---
 database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 63cd2d9..502a95b 100644
--- a/database.go
+++ b/database.go
@@ -413,7 +413,7 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
+	if s == "" {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
@@ -427,7 +427,7 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
+	if s == "" {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From c191ae75d8591501542f1e5450b2b41fcbbaa85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 17/24] fix: detect the same public key in another format

An RSA key added in PEM format could be added again in OpenSSH format, and
vice versa, because only one of the fingerprints has a prefix.
---
 user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index fb2a2d9..3807669 100644
--- a/user.go
+++ b/user.go
@@ -421,7 +421,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// The prefix depends on the format of the payload.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != strings.TrimPrefix(key.Fingerprint, "SHA256:") {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From c79229648a24f8e9800bc7f6851e7be31ee88160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 18/24] fix: refuse OpenSSH and PGP public keys with a
 mismatching usage

---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index 147edc7..4921ed9 100644
--- a/public_key.go
+++ b/public_key.go
@@ -129,6 +129,9 @@ func (p *PublicKey) parse() error {
 }
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	// Attempt parsing as authorized OpenSSH keys.
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
@@ -192,6 +195,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 }
 
 func (p *PublicKey) parsePublicKeyPGP() error {
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	var user, algo, comment string
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
-- 
2.43.0


From 04745832ca722073dedfd330a17f7b511598f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 19/24] fix: create a database in the home directory when its
 path says so

A path starting with a tilde was used as is for creating and storing the
database, but read from the home directory.
---
 database.go            |  8 ++++++--
 internal/utils/file.go | 13 +++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/database.go b/database.go
index 502a95b..14d3559 100644
--- a/database.go
+++ b/database.go
@@ -120,12 +120,16 @@ func NewDatabase(fp string) (*Database, error) {
 		refAPIKey:       make(map[string]*User),
 	}
 	var policyChanged bool
-	fileInfo, err := os.Stat(fp)
+	hfp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+	}
+	fileInfo, err := os.Stat(hfp)
 	if err != nil {
 		if !os.IsNotExist(err) {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if err := os.MkdirAll(filepath.Dir(fp), 0700); err != nil {
+		if err := os.MkdirAll(filepath.Dir(hfp), 0700); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
 		db.Version = app.Version
diff --git a/internal/utils/file.go b/internal/utils/file.go
index 2ae5355..652e610 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -22,8 +22,9 @@ import (
 	"syscall"
 )
 
-func expandHomePath(fp string) (string, error) {
-	if fp[0] != '~' {
+// ExpandHomePath expands home directory in a file path.
+func ExpandHomePath(fp string) (string, error) {
+	if fp == "" || fp[0] != '~' {
 		return fp, nil
 	}
 	hd, err := os.UserHomeDir()
@@ -37,17 +38,21 @@ func expandHomePath(fp string) (string, error) {
 // ReadFileBytes expands home directory and reads a file.
 func ReadFileBytes(fp string) ([]byte, error) {
 	var err error
-	fp, err = expandHomePath(fp)
+	fp, err = ExpandHomePath(fp)
 	if err != nil {
 		return nil, err
 	}
 	return ioutil.ReadFile(fp)
 }
 
-// WriteFileBytes writes a file by replacing it as a whole: the contents go to
+// WriteFileBytes expands home directory and writes a file by replacing it as a whole: the contents go to
 // a temporary file in the same directory, which then takes the place of the
 // target. An interrupted or failed write leaves the previous contents intact.
 func WriteFileBytes(fp string, data []byte, perm os.FileMode) error {
+	fp, err := ExpandHomePath(fp)
+	if err != nil {
+		return err
+	}
 	target := fp
 	if resolved, err := filepath.EvalSymlinks(fp); err == nil {
 		target = resolved
-- 
2.43.0


From a2049054e738001a7db8aa6ab1df61bba806964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 20/24] fix: refuse text which is not valid UTF-8

The JSON encoder replaces invalid bytes, so such text changed when the database
was opened again; two such usernames made the file unusable.
---
 api_key.go             |  3 +++
 mfa_token.go           |  3 +++
 pkg/errors/database.go |  1 +
 public_key.go          |  3 +++
 user.go                | 14 ++++++++++++++
 5 files changed, 24 insertions(+)

diff --git a/api_key.go b/api_key.go
index d13510a..b429e5c 100644
--- a/api_key.go
+++ b/api_key.go
@@ -78,6 +78,9 @@ func NewAPIKey(r *requests.Request) (*APIKey, error) {
 	if r.Key.Comment == "" {
 		return nil, errors.ErrAPIKeyCommentEmpty
 	}
+	if err := validText(r.Key.Comment); err != nil {
+		return nil, err
+	}
 	p := &APIKey{
 		Comment:   r.Key.Comment,
 		ID:        GetRandomString(40),
diff --git a/mfa_token.go b/mfa_token.go
index ce54a4d..3f3afe7 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -294,6 +294,9 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 	default:
 		return nil, errors.ErrMfaTokenInvalidType.WithArgs(p.Type)
 	}
+	if err := validText(p.Comment, p.Secret); err != nil {
+		return nil, err
+	}
 
 	return p, nil
 }
diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index cdea7a5..af418ce 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,7 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrTextEncodingInvalid StandardError = "text is not valid UTF-8"
 	ErrUserNull            StandardError = "user is null"
 	ErrUserNullEntry       StandardError = "user has a null %s"
 
diff --git a/public_key.go b/public_key.go
index 4921ed9..124803f 100644
--- a/public_key.go
+++ b/public_key.go
@@ -95,6 +95,9 @@ func NewPublicKey(r *requests.Request) (*PublicKey, error) {
 	if err := p.parse(); err != nil {
 		return nil, err
 	}
+	if err := validText(p.Comment, p.Payload); err != nil {
+		return nil, err
+	}
 	if r.Key.Disabled {
 		p.Disabled = true
 		p.DisabledAt = time.Now().UTC()
diff --git a/user.go b/user.go
index 3807669..2e3518f 100644
--- a/user.go
+++ b/user.go
@@ -19,6 +19,7 @@ import (
 	"github.com/greenpau/go-identity/pkg/requests"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // UserMetadata is metadata associated with a user.
@@ -103,6 +104,9 @@ func NewUser(s string) *User {
 
 // NewUserWithRoles returns User with additional fields.
 func NewUserWithRoles(username, password, email, fullName string, roles []string) (*User, error) {
+	if err := validText(append([]string{username, fullName}, roles...)...); err != nil {
+		return nil, err
+	}
 	user := NewUser(username)
 	if err := user.AddPassword(password, 0); err != nil {
 		return nil, err
@@ -597,6 +601,16 @@ func (user *User) GetChallenges() []string {
 	return challenges
 }
 
+// validText checks whether a database file can represent the strings.
+func validText(arr ...string) error {
+	for _, s := range arr {
+		if !utf8.ValidString(s) {
+			return errors.ErrTextEncodingInvalid
+		}
+	}
+	return nil
+}
+
 // Revise increments revision number and last modified timestamp.
 func (user *User) Revise() {
 	user.Revision++
-- 
2.43.0


From c51ecea11b5471070183f23bb655fd424ff68bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 21/24] fix: refuse U2F registrations without a P-256 public
 key

---
 mfa_token.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 3f3afe7..7e7a2d3 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -247,13 +247,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
-		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v {
-			case float64(1):
-				curveType = "p256"
-			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
-			}
+		switch v := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; v {
+		case float64(1):
+			curveType = "p256"
+		default:
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
 			coord, ok := v.(string)
@@ -287,6 +285,15 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		p.Parameters["curve_type"] = curveType
 		p.Parameters["curve_xcoord"] = curveXcoord
 		p.Parameters["curve_ycoord"] = curveYcoord
+
+		// The coordinates must be those of a point on the curve.
+		pubkey, err := derivePublicKey(p.Parameters)
+		if err != nil {
+			return nil, err
+		}
+		if !pubkey.Curve.IsOnCurve(pubkey.X, pubkey.Y) {
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x and y", "not a point on the curve")
+		}
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AttestationStatement.Certificates)
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AuthData.CredentialData)
 	case "":
-- 
2.43.0


From 94387378539719448cab49764cf62f25033d0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 22/24] fix: yield no code after a refused build

Build of a code description with invalid values left the URI of the
previous successful build in place.
---
 pkg/qr/qr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/qr/qr.go b/pkg/qr/qr.go
index 8056ea0..c249a8f 100644
--- a/pkg/qr/qr.go
+++ b/pkg/qr/qr.go
@@ -88,6 +88,7 @@ func (c *Code) validate() error {
 
 // Build validates and build QR code.
 func (c *Code) Build() error {
+	c.text, c.encoded = "", ""
 	if err := c.validate(); err != nil {
 		return err
 	}
-- 
2.43.0


From 0c90367647a061647da3ab40585e06bdba948567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 23/24] fix: do not report results of an earlier identification

A request used for more than one identification kept the flags, the
name and the roles of the previous user, in particular for unknown
users, who carry none of them.
---
 database.go | 3 +++
 user.go     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/database.go b/database.go
index 14d3559..d4a700f 100644
--- a/database.go
+++ b/database.go
@@ -677,7 +677,10 @@ func (db *Database) IdentifyUser(r *requests.Request) error {
 	if err != nil {
 		r.User.Username = "nobody"
 		r.User.Email = "nobody@localhost"
+		r.User.FullName = ""
+		r.User.Roles = nil
 		r.User.Challenges = []string{"password"}
+		resetFlags(r)
 		return nil
 	}
 	if r.Flags.Enabled {
diff --git a/user.go b/user.go
index 2e3518f..f2f7183 100644
--- a/user.go
+++ b/user.go
@@ -542,6 +542,7 @@ func (user *User) DeleteMfaToken(r *requests.Request) error {
 
 // GetFlags populates request context with metadata about a user.
 func (user *User) GetFlags(r *requests.Request) {
+	resetFlags(r)
 	for _, token := range user.MfaTokens {
 		if token.Disabled {
 			continue
@@ -556,6 +557,13 @@ func (user *User) GetFlags(r *requests.Request) {
 	}
 }
 
+// resetFlags clears the flags left in a request by an earlier call.
+func resetFlags(r *requests.Request) {
+	r.Flags.MfaConfigured = false
+	r.Flags.MfaApp = false
+	r.Flags.MfaUniversal = false
+}
+
 // ChangePassword changes user password.
 func (user *User) ChangePassword(r *requests.Request, keepVersions int) error {
 	if err := user.VerifyPassword(r.User.OldPassword); err != nil {
-- 
2.43.0


From e86637a007b7a0dd602fb3c60878e90394b9e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 24/24] fix: OpenPGP key with several identities got a random
 one of them in its comment

---
 public_key.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 124803f..dadb92b 100644
--- a/public_key.go
+++ b/public_key.go
@@ -26,6 +26,7 @@ import (
 	"github.com/greenpau/go-identity/pkg/requests"
 	"golang.org/x/crypto/openpgp"
 	"golang.org/x/crypto/ssh"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -241,10 +242,13 @@ func (p *PublicKey) parsePublicKeyPGP() error {
 	default:
 		return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("PGP keyring entry has unsupported public key algo %v", pk.PubKeyAlgo))
 	}
+	// The order of the identities differs from one iteration to the next.
+	var names []string
 	for _, u := range kr[0].Identities {
-		user = u.Name
-		break
+		names = append(names, u.Name)
 	}
+	sort.Strings(names)
+	user = names[0]
 	comment = fmt.Sprintf("%s, algo %s, created %s", user, algo, pk.CreationTime.UTC())
 	if p.Comment != "" {
 		p.Comment = fmt.Sprintf("%s (%s)", p.Comment, comment)
-- 
2.43.0

