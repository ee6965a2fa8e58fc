package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C16. Hostile text and structurally mutated payloads in every field of every
// operation and parser; afterwards the model judges a normal history on the
// same database.

func init() {
	register(&Prop{ID: "C16", Level: "exploration",
		Rule:  "every operation and parser is called with hostile text (empty, blank, NUL, invalid UTF-8, formatting directives, long, JSON/PEM/PGP fragments), structurally mutated registration and assertion documents, mutated SSH, PEM/DER and OpenPGP material; monitors: panics, fatal errors, deadlocks (single-goroutine workers, so the runtime reports a blocked call) and CPU budget, exactly one of result and error, frame conditions on the records; then a model-judged history on the same database",
		Cases: n2(360, 4800), Run: runC16})
}

func hostileText(r *rand.Rand, w *World) string {
	u := w.pickUser()
	switch r.Intn(26) {
	case 24, 25:
		// runs of one character that trimming, splitting or folding removes,
		// changes or grows, of lengths around those the code knows, alone or
		// around something valid
		n := []int{1, 2, 3, 7, 8, 9, 16, 23, 24, 25, 31, 32, 33, 39, 40, 48, 63, 64, 65, 71, 72, 73, 90, 96, 97, 100, 128, 200, 255, 256, 257}[r.Intn(31)]
		run := strings.Repeat(pick(r, " ", "\n", "\t", "\x00", "\u00a0", "\u2003", "=", "-", ".", ",", "/", "@", "A", "a", "0", "\u0130", "\u1e9e", "\xff", "\x80", "+", "_", "$"), n)
		switch r.Intn(6) {
		case 0:
			return run + pick(r, "a", u.username, u.email)
		case 1:
			return pick(r, "a", u.username, u.email) + run
		case 2:
			if len(u.api) > 0 {
				return run + u.api[0].plain[:24]
			}
		case 3:
			return "a" + run + "b"
		}
		return run
	case 0:
		return ""
	case 1:
		return pick(r, " ", "\t", "\n", "  \r\n ", "\u00a0", "\u2003")
	case 2:
		return pick(r, "\x00", "a\x00b", "\x00\x00\x00\x00\x00\x00\x00\x00\x00", "abcdefgh\x00")
	case 3:
		return strings.Repeat(pick(r, "a", "é", "\x00", "%", "\"", "{", "[", "-----BEGIN ", "/"), []int{73, 255, 5000, 60000}[r.Intn(4)])
	case 4:
		return pick(r, "\xff", "abc\xff\xfe", "\xc3\x28", "user\x80name", "\xed\xa0\x80", "\xf5\x80\x80\x80")
	case 5:
		return pick(r, "%s%s%s%n", "%d %v %q", "%!s(MISSING)", "%", "100%", "%[1]*.[2]*[3]f", "%999999999d")
	case 6:
		return pick(r, "{", "null", "[]", "{\"a\":1}", "\"", "\\", "\\u0000", "]}", "{\"id\":null}")
	case 7:
		return base64.StdEncoding.EncodeToString([]byte(pick(r, "null", "{}", "[]", "1", "\"x\"", "{\"id\":", "\xff\xfe", "")))
	case 8:
		return pick(r, "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----BEGIN RSA PUBLIC KEY-----", "ssh-rsa ", "ssh-rsa AAAA", "-----BEGIN RSA PUBLIC KEY-----\n-----END RSA PUBLIC KEY-----", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n-----END PGP PUBLIC KEY BLOCK-----")
	case 9:
		b := make([]byte, r.Intn(64))
		r.Read(b)
		return string(b)
	case 10:
		return pick(r, "@", "a@", "@b", "a@b", "a@@b", "/", "//", "a/", ",", ",,", ", ,", " , ", "~", "..", "*", "'; --")
	case 11:
		return pick(r, "\ufffd", "\u202euser", "İ", "ſ", "K", "ǅ", "\U0001f600\U0001f600\U0001f600", "e\u0301", "\ufeffuser")
	case 12:
		return u.username
	case 13:
		return u.email
	case 14:
		return u.id
	case 15:
		if len(u.api) > 0 {
			return u.api[0].plain[:r.Intn(len(u.api[0].plain))]
		}
		return "api"
	case 16:
		if len(u.keys) > 0 {
			return u.keys[0].id + pick(r, " ", "x", "\x00")
		}
		return "0"
	case 17:
		return u.username + pick(r, " ", "\x00", "%s", "\xff")
	case 18:
		return pick(r, "totp", "u2f", "ssh", "gpg", "api", "hotp", "TOTP", "sha1", "SHA512", "md5")
	case 19:
		return fmt.Sprint([]int{-1, 0, 1, 1 << 31, 1<<31 - 1, -1 << 31}[r.Intn(6)])
	case 20:
		return strings.Repeat("x/", r.Intn(30)) + "y"
	case 21:
		return randFrom(r, alnum, 40)
	case 22:
		return randFrom(r, "{}[]\":,\\ntrue0123", 1+r.Intn(40))
	default:
		return mutateBytes(r, pick(r, u.username, u.email, "some ordinary text"))
	}
}

func mutateBytes(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
		case 1:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 2:
			if len(b) > 0 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 3:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 4:
			if len(b) > 2 && r.Intn(4) == 0 {
				b = b[:r.Intn(len(b))]
			}
		}
	}
	return string(b)
}

// oddValue is a JSON value of another type or an extreme one.
func oddValue(r *rand.Rand, w *World) interface{} {
	switch r.Intn(16) {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return -1
	case 3:
		return 1.5
	case 4:
		return json.Number("1e400")
	case 5:
		return json.Number("123456789012345678901234567890")
	case 6:
		return []interface{}{}
	case 7:
		return map[string]interface{}{}
	case 8:
		return []interface{}{nil, 1, "x"}
	case 9:
		return map[string]interface{}{"": nil, "x": []interface{}{nil}}
	case 10:
		return ""
	case 11:
		return base64.StdEncoding.EncodeToString(make([]byte, []int{0, 1, 31, 32, 33, 36, 37, 64}[r.Intn(8)]))
	case 12:
		return "=" + randFrom(r, alnum, 43)
	case 13:
		return r.Intn(1 << 16)
	default:
		s := strings.ToValidUTF8(hostileText(r, w), "?")
		if len(s) > 3000 {
			s = s[:3000]
		}
		return s
	}
}

// mutateDoc changes n places of a JSON document.
func mutateDoc(r *rand.Rand, w *World, doc interface{}, n int) interface{} {
	for ; n > 0; n-- {
		doc = mutateOnce(r, w, doc)
	}
	return doc
}

func mutateOnce(r *rand.Rand, w *World, v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		if len(t) == 0 || r.Intn(6) == 0 {
			break
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		k := ks[r.Intn(len(ks))]
		switch r.Intn(6) {
		case 0:
			delete(t, k)
		case 1:
			t[swapCase(k)] = oddValue(r, w)
		case 2:
			t[k+"x"] = t[k]
		default:
			t[k] = mutateOnce(r, w, t[k])
		}
		return t
	case []interface{}:
		if len(t) == 0 || r.Intn(4) == 0 {
			break
		}
		i := r.Intn(len(t))
		switch r.Intn(3) {
		case 0:
			return append(t, oddValue(r, w))
		default:
			t[i] = mutateOnce(r, w, t[i])
		}
		return t
	case string:
		if r.Intn(3) > 0 {
			return strings.ToValidUTF8(mutateBytes(r, t), "?")
		}
	}
	return oddValue(r, w)
}

// encodeDoc renders a document for a request, now and then not quite.
func encodeDoc(r *rand.Rand, doc interface{}) string {
	b, err := json.Marshal(doc)
	if err != nil {
		b = []byte("{}")
	}
	switch r.Intn(14) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = []byte(mutateBytes(r, string(b)))
	case 2:
		b = append(b, []byte(pick(r, "x", "{}", "\x00", " "))...)
	case 3:
		return base64.URLEncoding.EncodeToString(b)
	case 4:
		s := base64.StdEncoding.EncodeToString(b)
		return mutateBytes(r, s)
	case 5:
		// deep nesting
		n := []int{100, 9000, 20000}[r.Intn(3)]
		b = []byte(`{"id":"x","extensions":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}")
	case 6:
		// duplicate keys
		b = append([]byte(`{"id":null,"type":3,`), b[1:]...)
	}
	return base64.StdEncoding.EncodeToString(b)
}

func crc24(b []byte) uint32 {
	c := uint32(0xb704ce)
	for _, x := range b {
		c ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

func armorPGP(b []byte) string {
	s := base64.StdEncoding.EncodeToString(b)
	var sb strings.Builder
	sb.WriteString("-----BEGIN PGP PUBLIC KEY BLOCK-----\n\n")
	for len(s) > 64 {
		sb.WriteString(s[:64] + "\n")
		s = s[64:]
	}
	sb.WriteString(s + "\n")
	c := crc24(b)
	sb.WriteString("=" + base64.StdEncoding.EncodeToString([]byte{byte(c >> 16), byte(c >> 8), byte(c)}) + "\n")
	sb.WriteString("-----END PGP PUBLIC KEY BLOCK-----")
	return sb.String()
}

// dsaSPKI is a SubjectPublicKeyInfo with a DSA key of arbitrary numbers.
func dsaSPKI(r *rand.Rand) []byte {
	num := func() *big.Int { return new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(1024)))) }
	y, _ := asn1.Marshal(num())
	params, _ := asn1.Marshal(struct{ P, Q, G *big.Int }{num(), num(), num()})
	b, _ := asn1.Marshal(struct {
		A struct {
			O asn1.ObjectIdentifier
			P asn1.RawValue
		}
		K asn1.BitString
	}{struct {
		O asn1.ObjectIdentifier
		P asn1.RawValue
	}{asn1.ObjectIdentifier{1, 2, 840, 10040, 4, 1}, asn1.RawValue{FullBytes: params}}, asn1.BitString{Bytes: y, BitLength: len(y) * 8}})
	return b
}

// hostileKey renders key material of any kind, often damaged.
func hostileKey(r *rand.Rand, w *World) string {
	switch r.Intn(9) {
	case 0: // OpenPGP with altered packets
		p := loadPGP(w.c)
		raw, err := dearmor(p[r.Intn(len(p))].armor)
		if err != nil {
			w.c.Harness("%v", err)
		}
		b := append([]byte(nil), raw...)
		switch r.Intn(6) {
		case 0:
			b = b[:r.Intn(len(b))]
		case 1:
			b = append(b, b...)
		case 2:
			b[r.Intn(8)] = byte(r.Intn(256))
		case 3:
			for i := 0; i < 1+r.Intn(6); i++ {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 4:
			i := r.Intn(len(b))
			b = append(b[:i:i], b[i+r.Intn(len(b)-i):]...)
		case 5:
			q, _ := dearmor(p[r.Intn(len(p))].armor)
			b = append(b, q[:r.Intn(len(q))]...)
		}
		return armorPGP(b)
	case 1: // altered armour text
		p := loadPGP(w.c)
		a := p[r.Intn(len(p))].armor
		if r.Intn(3) == 0 {
			return pick(r, " \n", "") + a + pick(r, "\n\n", "x", "")
		}
		return mutateBytes(r, a)
	case 2, 3: // SSH wire format of any key type
		var b []byte
		switch r.Intn(8) {
		case 0:
			pub, _, _ := ed25519.GenerateKey(r)
			b = append(sshString([]byte("ssh-ed25519")), sshString(pub)...)
		case 1:
			f := newFido(r)
			b = append(sshString([]byte("ecdsa-sha2-nistp256")), sshString([]byte("nistp256"))...)
			b = append(b, sshString(elliptic.Marshal(elliptic.P256(), f.priv.X, f.priv.Y))...)
		case 2:
			b = sshString([]byte("ssh-dss"))
			for i := 0; i < 4; i++ {
				x := make([]byte, []int{0, 1, 20, 128}[r.Intn(4)])
				r.Read(x)
				b = append(b, sshMpint(new(big.Int).SetBytes(x))...)
			}
		case 3:
			b = append(sshString([]byte(pick(r, "ssh-rsa-cert-v01@openssh.com", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "ecdsa-sha2-nistp521", "rsa-sha2-256", ""))), genRSA(r, 1024).wire()...)
		case 4:
			b = append(sshString([]byte("ssh-rsa")), sshMpint(big.NewInt([]int64{0, 1, 3, 65537, 1 << 40}[r.Intn(5)]))...)
			b = append(b, sshMpint(big.NewInt(int64(r.Intn(4))))...)
		default:
			b = genRSA(r, 1024).wire()
		}
		switch r.Intn(5) {
		case 0:
			b = []byte(mutateBytes(r, string(b)))
		case 1:
			b = b[:r.Intn(len(b)+1)]
		case 2:
			binary.BigEndian.PutUint32(b, []uint32{0, 1, 6, 8, 0x7fffffff, 0xffffffff}[r.Intn(6)])
		}
		return pick(r, "ssh-rsa ", "ssh-rsa ", "ssh-rsa  ", "ssh-rsa \t", "ssh-ed25519 ") + base64.StdEncoding.EncodeToString(b) + pick(r, "", "", " c", "\n", " \x00", " %s", " \xff")
	case 4, 5: // PEM of any key
		var der []byte
		switch r.Intn(7) {
		case 0:
			pub, _, _ := ed25519.GenerateKey(r)
			der, _ = x509.MarshalPKIXPublicKey(pub)
		case 1:
			for _, cv := range []elliptic.Curve{elliptic.P224(), elliptic.P384(), elliptic.P521()} {
				k := &ecdsa.PublicKey{Curve: cv, X: cv.Params().Gx, Y: cv.Params().Gy}
				if der == nil || r.Intn(2) == 0 {
					der, _ = x509.MarshalPKIXPublicKey(k)
				}
			}
		case 2:
			der = dsaSPKI(r)
		case 3:
			k := genRSA(r, 1024)
			der = x509.MarshalPKCS1PublicKey(&rsa.PublicKey{N: k.n, E: int(k.e)})
		default:
			der = genRSA(r, 1024).spki()
		}
		switch r.Intn(5) {
		case 0:
			der = []byte(mutateBytes(r, string(der)))
		case 1:
			der = der[:r.Intn(len(der)+1)]
		}
		typ := pick(r, "RSA PUBLIC KEY", "RSA PUBLIC KEY", "RSA PUBLIC KEY", "PUBLIC KEY", "RSA PRIVATE KEY", "X RSA PUBLIC KEY")
		s := string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
		switch r.Intn(5) {
		case 0:
			s = mutateBytes(r, s)
		case 1:
			s = "RSA PUBLIC KEY " + s
		case 2:
			s = strings.Replace(s, "\n", "\nProc-Type: 4,ENCRYPTED\n", 1)
		}
		return s
	case 6:
		return genRSA(r, []int{1024, 2048}[r.Intn(2)]).openssh(strings.ToValidUTF8(hostileText(r, w), "?"))
	default:
		return hostileText(r, w)
	}
}

// resync takes over what the library stored for u.
func (w *World) resync(u *mUser, field string, plain string) func(o, n rawObj) {
	return func(o, n rawObj) {
		c := w.c
		d := parseUser(c, w.dumps[w.idx(u)])
		s := &step{op: "hostile request", field: field, cats: []string{"C16", "C11", "C12", "C10"}}
		w.appended(s, u, o, n)
		switch field {
		case "public_keys":
			k := d.PublicKeys[len(d.PublicKeys)-1]
			m := mKey{id: k.ID, usage: k.Usage, disabled: k.Disabled}
			if k.Usage == "gpg" {
				m.canon = "pgp:" + k.Fingerprint
			} else {
				m.canon = "ssh:" + k.Fingerprint
				if b, err := b64any(strings.TrimSpace(k.OpenSSH)); err == nil {
					if e, nn, ok := rsaFromWire(b); ok {
						m.canon = "rsa:" + nn.String() + "/" + e.String()
					}
				}
			}
			for _, x := range u.keys {
				if x.canon == m.canon {
					c.Violate([]string{"C11"}, "key %s was stored twice", m.canon)
				}
			}
			u.keys = append(u.keys, m)
		case "api_keys":
			k := d.APIKeys[len(d.APIKeys)-1]
			u.api = append(u.api, mAPI{id: k.ID, plain: plain, comment: k.Comment, disabled: k.Disabled})
		case "mfa_tokens":
			t := d.MfaTokens[len(d.MfaTokens)-1]
			for _, x := range u.mfa {
				if x.secret == t.Secret || x.comment == t.Comment {
					c.Violate([]string{"C12"}, "a token with a duplicate secret or comment was stored")
				}
			}
			u.mfa = append(u.mfa, mTok{id: t.ID, typ: t.Type, secret: t.Secret, comment: t.Comment, algo: t.Algorithm, period: t.Period, digits: t.Digits, disabled: t.Disabled})
		}
		u.rev++
	}
}

func rsaFromWire(b []byte) (e, n *big.Int, ok bool) {
	var f [][]byte
	for len(b) >= 4 {
		l := int(binary.BigEndian.Uint32(b))
		if l < 0 || l > len(b)-4 {
			return nil, nil, false
		}
		f = append(f, b[4:4+l])
		b = b[4+l:]
	}
	if len(f) < 3 || string(f[0]) != "ssh-rsa" {
		return nil, nil, false
	}
	return new(big.Int).SetBytes(f[1]), new(big.Int).SetBytes(f[2]), true
}

// hostileReq is a request for u in which the unrelated fields are hostile too.
func (w *World) hostileReq(u *mUser) *requests.Request {
	r := w.c.R
	q := req(u)
	h := func() string {
		if r.Intn(3) == 0 {
			return hostileText(r, w)
		}
		return ""
	}
	q.ID, q.Query.ID, q.Query.Name = h(), h(), h()
	q.User.FullName, q.User.OldPassword = h(), h()
	q.Key.ID, q.Key.Prefix, q.MfaToken.ID = h(), h(), h()
	q.Response.RedirectURL = h()
	if r.Intn(4) == 0 {
		q.User.Roles = []string{h(), h()}
		q.User.Challenges = []string{h()}
	}
	q.Flags.Enabled = r.Intn(2) == 0
	return q
}

func (w *World) hostileOp(toks []*fido) string {
	c, r := w.c, w.c.R
	u := w.pickUser()
	h := func() string { return hostileText(r, w) }
	anyStep := func(op, field string, u *mUser, call func() error, apply func(o, n rawObj)) error {
		return w.run(&step{op: op, store: field != "", actor: u, field: field, kinds: kindsOf[op], cats: []string{"C16"}, expect: expAny, reason: "hostile", call: call, apply: apply})
	}
	switch k := r.Intn(20); k {
	case 0, 1:
		a := w.genAddUser()
		switch r.Intn(6) {
		case 0:
			a.uname = h()
		case 1:
			a.mail = h()
		case 2:
			a.pw = h()
		case 3, 4:
			a.name = h()
		case 5:
			a.roles = append(a.roles, strings.TrimLeft(h(), "/ \t\r\n\v\f"))
		}
		// what a role text starting with a slash denotes is not specified
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.User.Password, q.User.FullName, q.User.Roles = a.uname, a.mail, a.pw, a.name, a.roles
		dup := w.byName(a.uname) != nil || w.byMail(a.mail) != nil
		c.Log("AddUser(hostile %q %q %q %q %q)", a.uname, a.mail, a.pw, a.name, a.roles)
		s := &step{op: "AddUser", store: true, kinds: kindsOf["AddUser"], cats: []string{"C16", "C03"}, expect: expAny, reason: "hostile"}
		if dup {
			s.expect, s.reason = expFail, "duplicate"
		}
		s.call = func() error { return w.db.AddUser(q) }
		s.apply = func(_, _ rawObj) {
			n := &mUser{username: a.uname, email: a.mail, pw: a.pw}
			d := parseUser(c, w.dumpUser(w.db, n, []string{"C16"}))
			if d.Name != nil {
				n.first, n.last = d.Name.First, d.Name.Last
			}
			for _, x := range d.Roles {
				t := x.Name
				if x.Organization != "" {
					t = x.Organization + "/" + t
				}
				n.roles = append(n.roles, t)
			}
			w.adoptUser(n)
			c.Event("hostile_users_accepted")
		}
		w.run(s)
		return "AddUser"
	case 2:
		q := w.hostileReq(u)
		id := [2]string{u.username, u.email}
		id[r.Intn(2)] = h()
		if r.Intn(3) == 0 {
			id = [2]string{h(), h()}
		}
		_ = q
		w.force = &id
		op := pick(r, "getuser", "getusers", "getkeys", "getapi", "getmfa", "deluser", "chpw", "addkey", "addapi", "delkey", "delapi", "delmfa", "addu2f")
		opTable[op](w)
		w.force = nil
		return "identity:" + op
	case 3:
		old, nw := u.pw, h()
		if r.Intn(4) == 0 {
			old = h()
		}
		q := w.hostileReq(u)
		w.changePassword(q, u, old, nw)
		return "ChangeUserPassword"
	case 4, 5, 6:
		q := w.hostileReq(u)
		q.Key.Usage = pick(r, "ssh", "ssh", "gpg", h())
		q.Key.Payload = hostileKey(r, w)
		if strings.Contains(q.Key.Payload, "BEGIN PGP") && r.Intn(3) > 0 {
			q.Key.Usage = "gpg"
		}
		q.Key.Comment = pick(r, "", "c", h())
		q.Key.Disabled = r.Intn(4) == 0
		c.Log("AddPublicKey(hostile usage=%q payload=%q comment=%q)", q.Key.Usage, head(q.Key.Payload, 300), head(q.Key.Comment, 80))
		if anyStep("AddPublicKey", "public_keys", u, func() error { return w.db.AddPublicKey(q) }, w.resync(u, "public_keys", "")) == nil {
			c.Event("hostile_keys_accepted")
		}
		return "AddPublicKey"
	case 7:
		q := w.hostileReq(u)
		q.Key.Usage, q.Key.Comment, q.Key.Disabled = pick(r, "api", "api", h()), h(), r.Intn(3) == 0
		q.Key.Payload = h()
		c.Log("AddAPIKey(hostile usage=%q comment=%q)", q.Key.Usage, head(q.Key.Comment, 80))
		var plain string
		anyStep("AddAPIKey", "api_keys", u, func() error {
			err := w.db.AddAPIKey(q)
			plain, _ = q.Response.Payload.(string)
			return err
		}, func(o, n rawObj) { w.resync(u, "api_keys", plain)(o, n) })
		return "AddAPIKey"
	case 8:
		q := w.hostileReq(u)
		id := h()
		switch r.Intn(3) {
		case 0:
			w.deletePublicKey(q, u, id)
		case 1:
			w.deleteAPIKey(q, u, id)
		case 2:
			w.deleteMfa(q, u, id)
		}
		return "Delete*"
	case 9:
		q := w.hostileReq(u)
		q.Key.Usage = h()
		q.Key.ID = h()
		c.Log("GetPublicKeys(hostile usage=%q)", head(q.Key.Usage, 80))
		w.run(&step{op: "GetPublicKeys", kinds: kindsOf["GetPublicKeys"], cats: []string{"C16"}, expect: expAny, call: func() error { return w.db.GetPublicKeys(q) }})
		return "GetPublicKeys"
	case 10:
		for i := 0; i < 8; i++ {
			w.expectLookup(h())
			w.expectIdentify(h(), r.Intn(2) == 0)
		}
		if len(u.api) > 0 {
			w.expectLookup(mutateBytes(r, u.api[r.Intn(len(u.api))].plain))
		}
		return "LookupAPIKey"
	case 11:
		x := h()
		w.expectAuth(x, pick(r, u.pw, h()))
		w.expectAuth(u.username, h())
		w.expectIdentify(x, r.Intn(2) == 0)
		return "AuthenticateUser"
	case 12, 13:
		q := w.hostileReq(u)
		m := &q.MfaToken
		m.Type, m.Secret, m.Comment = pick(r, "totp", "totp", "totp", h()), pick(r, genSecret(r), h()), pick(r, "c"+genSecret(r), h())
		m.Algorithm = pick(r, "", "sha1", "sha256", "SHA512", h())
		m.Period = []int{30, 60, 300, 0, -1, 29, 301, 1 << 40, -1 << 40}[r.Intn(9)]
		m.Digits = []int{0, 4, 6, 8, 3, 9, -1, 1 << 40}[r.Intn(8)]
		m.Disabled = r.Intn(4) == 0
		dg := m.Digits
		if dg < 4 || dg > 8 {
			dg = 6
		}
		p := m.Period
		if p < 1 {
			p = 30
		}
		al := fold(m.Algorithm)
		if refTOTP(nil, al, 6, 0) == "" {
			al = "sha1"
		}
		m.Passcode = refTOTP([]byte(m.Secret), al, dg, stepOf(time.Now(), p))
		if r.Intn(3) == 0 {
			m.Passcode = h()
		}
		c.Log("AddMfaToken(hostile %+v)", head(fmt.Sprintf("%+v", *m), 300))
		if anyStep("AddMfaToken", "mfa_tokens", u, func() error { return w.db.AddMfaToken(q) }, w.resync(u, "mfa_tokens", "")) == nil {
			c.Event("hostile_totp_accepted")
		}
		return "AddMfaToken/totp"
	case 14, 15:
		q := w.hostileReq(u)
		f := newFido(r)
		q.MfaToken.Type, q.MfaToken.Comment = "u2f", pick(r, "c"+genSecret(r), h())
		q.WebAuthn.Challenge = pick(r, genChallenge(r), genChallenge(r), h())
		q.WebAuthn.Register = encodeDoc(r, mutateDoc(r, w, f.register(), r.Intn(4)))
		if r.Intn(8) == 0 {
			q.WebAuthn.Register = h()
		}
		c.Log("AddMfaToken(hostile u2f register=%q challenge=%q)", head(q.WebAuthn.Register, 1500), head(q.WebAuthn.Challenge, 60))
		if anyStep("AddMfaToken", "mfa_tokens", u, func() error { return w.db.AddMfaToken(q) }, w.resync(u, "mfa_tokens", "")) == nil {
			c.Event("hostile_u2f_accepted")
		}
		return "AddMfaToken/u2f"
	case 16, 17:
		// assertions: only the unaltered genuine one may pass, which the
		// C14 monitor judges; here any outcome but a crash
		v := w.users[0]
		f := toks[r.Intn(len(toks))]
		q := w.hostileReq(v)
		q.User.Password = ""
		ch := genChallenge(r)
		g := f.assert(ch, byte(r.Intn(256)), r.Uint32(), nil)
		if r.Intn(3) == 0 {
			cd := mutateDoc(r, w, map[string]interface{}{"type": "webauthn.get", "challenge": ch, "origin": "https://localhost", "crossOrigin": false}, 1+r.Intn(2))
			b, _ := json.Marshal(cd)
			g.clientData = b
			g = f.signed(*g)
		}
		if r.Intn(3) == 0 {
			n := r.Intn(80)
			g.authData = append(append([]byte(nil), g.authData...), make([]byte, n)...)[:n]
			g = f.signed(*g)
		}
		q.WebAuthn.Challenge = pick(r, ch, ch, h())
		q.WebAuthn.Request = encodeDoc(r, mutateDoc(r, w, toGeneric(g.doc()), r.Intn(3)))
		if r.Intn(8) == 0 {
			q.WebAuthn.Request = h()
		}
		if q.WebAuthn.Request == "" {
			q.WebAuthn.Request = " "
		}
		c.Log("AuthenticateUser(hostile webauthn request=%q)", head(q.WebAuthn.Request, 1500))
		w.run(&step{op: "AuthenticateUser", kinds: kindsOf["AuthenticateUser"], cats: []string{"C16"}, expect: expAny, call: func() error { return w.db.AuthenticateUser(q) }})
		return "AuthenticateUser/webauthn"
	case 18:
		dst := filepath.Join(c.Dir, strings.ReplaceAll(strings.ReplaceAll(h(), "..", "dots"), "~", "tilde"))
		rel, err := filepath.Rel(c.Dir, dst)
		if err != nil || strings.HasPrefix(rel, "..") || rel == "." || dst == w.path {
			return "none"
		}
		if fi, err := os.Lstat(dst); err == nil && !fi.Mode().IsRegular() {
			return "none"
		}
		c.Log("Copy(%q)", head(dst, 200))
		w.run(&step{op: "Copy", store: true, kinds: kindsOf["Copy"], cats: []string{"C16", "C05"}, expect: expAny, copyTo: dst, call: func() error { return w.db.Copy(dst) }})
		return "Copy"
	default:
		p := filepath.Join(c.Dir, "hostile-dbs", strings.ReplaceAll(strings.ReplaceAll(h(), "..", "dots"), "~", "tilde"))
		c.Log("NewDatabase(%q)", head(p, 200))
		c.Call("NewDatabase", func() error {
			db, err := openDB(p)
			if (err == nil) == (db == nil) {
				c.Violate([]string{"C16"}, "NewDatabase(%q) returned %v and %v", p, db, err)
			}
			if err == nil && db.GetUserCount() != 0 {
				c.Violate([]string{"C16"}, "NewDatabase of a new path has users")
			}
			return err
		})
		w.unchanged("opening another database", []string{"C16"})
		return "NewDatabase"
	}
}

func toGeneric(m map[string]interface{}) interface{} {
	b, _ := json.Marshal(m)
	var v interface{}
	json.Unmarshal(b, &v)
	return v
}

// xor: a parser returns a result or an error, never both or neither.
func (w *World) xor(what string, null bool, err error) {
	if null == (err == nil) {
		w.c.Violate([]string{"C16"}, "%s returned null=%v and error %v", what, null, err)
	}
	if err != nil && strings.TrimSpace(err.Error()) == "" {
		w.c.Violate([]string{"C16", "C25"}, "%s returned an error without text", what)
	}
	w.c.Eval(fmt.Sprintf("%s/%v", what, err == nil))
	if err == nil {
		w.c.Event("parsed:" + what)
	} else {
		w.c.Event("refused:" + what)
	}
}

// hostileParse calls the constructors and parsers with hostile input.
func (w *World) hostileParse() {
	c, r := w.c, w.c.R
	h := func() string { return hostileText(r, w) }
	call := func(name string, f func()) { c.Call(name, func() error { f(); return nil }) }
	x, y := h(), h()
	c.Log("parsers with %q %q", head(x, 200), head(y, 200))
	call("ParseName", func() {
		n, err := identity.ParseName(x)
		w.xor("ParseName", n == nil, err)
		if n != nil {
			n.GetFullName()
			n.GetNameClaim()
			n.ToString()
		}
	})
	call("NewEmailAddress", func() {
		m, err := identity.NewEmailAddress(x)
		w.xor("NewEmailAddress", m == nil, err)
		if m != nil {
			m.ToString()
			m.Primary()
		}
	})
	call("NewRole", func() {
		o, err := identity.NewRole(x)
		w.xor("NewRole", o == nil, err)
		if o != nil {
			_ = o.String()
		}
	})
	call("NewPassword", func() {
		p, err := identity.NewPassword(x)
		w.xor("NewPassword", p == nil, err)
		if p != nil {
			if !p.Match(x) {
				c.Violate([]string{"C16", "C01"}, "NewPassword(%q) does not match itself", x)
			}
			p.Match(y)
			p.Disable()
		}
	})
	call("NewUserWithRoles", func() {
		u, err := identity.NewUserWithRoles(h(), pick(r, "password-1", h()), pick(r, "a@b.c", h()), pick(r, "A, B", h()), []string{pick(r, "x", h()), pick(r, "y/z", h())})
		w.xor("NewUserWithRoles", u == nil, err)
		if u != nil {
			u.HasRole(x)
			u.AddRole(y)
			u.AddEmailAddress(x)
			u.AddPassword(y, []int{0, 1, -1, 5}[r.Intn(4)])
			u.VerifyPassword(x)
			if n, err := identity.ParseName(x); err == nil {
				u.AddName(n)
			}
			u.GetFullName()
			u.GetMailClaim()
			u.GetRolesClaim()
			u.GetMetadata()
			u.GetChallenges()
			q := requests.NewRequest()
			q.WebAuthn.Request = y
			u.GetFlags(q)
			if u.VerifyWebAuthnRequest(q) == nil {
				c.Violate([]string{"C16", "C14"}, "a user without tokens verified a WebAuthn request")
			}
			u.LookupAPIKey(q)
		}
	})
	call("NewUser", func() {
		u := identity.NewUser(x)
		u.Valid()
		u.GetFullName()
		u.GetNameClaim()
		u.GetMailClaim()
		u.GetRolesClaim()
		u.HasRole(y)
		u.GetMetadata()
		u.GetChallenges()
		u.VerifyPassword(y)
		identity.NewRegistration(u)
	})
	call("NewPublicKey", func() {
		q := requests.NewRequest()
		q.Key.Usage, q.Key.Payload, q.Key.Comment = pick(r, "ssh", "gpg", h()), hostileKey(r, w), h()
		if strings.Contains(q.Key.Payload, "BEGIN PGP") && r.Intn(3) > 0 {
			q.Key.Usage = "gpg"
		}
		c.Log("NewPublicKey(usage=%q payload=%q)", head(q.Key.Usage, 40), head(q.Key.Payload, 1500))
		k, err := identity.NewPublicKey(q)
		w.xor("NewPublicKey", k == nil, err)
		if k != nil {
			if k.Type == "" || k.Fingerprint == "" || k.ID == "" {
				c.Violate([]string{"C16", "C11"}, "accepted key has type %q fingerprint %q id %q", k.Type, k.Fingerprint, k.ID)
			}
			k.Disable()
			b := identity.NewPublicKeyBundle()
			b.Add(k)
		}
	})
	call("NewAPIKey", func() {
		q := requests.NewRequest()
		q.Key.Usage, q.Key.Comment, q.Key.Payload = pick(r, "api", h()), h(), pick(r, "hash", h())
		k, err := identity.NewAPIKey(q)
		w.xor("NewAPIKey", k == nil, err)
		if k != nil {
			k.Match(x)
			k.Match(y)
			k.Disable()
		}
	})
	call("NewMfaToken", func() {
		q := requests.NewRequest()
		m := &q.MfaToken
		m.Type, m.Secret, m.Comment, m.Passcode = pick(r, "totp", "u2f", h()), h(), h(), h()
		m.Algorithm, m.Period, m.Digits = pick(r, "sha1", h()), r.Intn(400)-20, r.Intn(12)-2
		q.WebAuthn.Challenge = h()
		q.WebAuthn.Register = encodeDoc(r, mutateDoc(r, w, newFido(r).register(), r.Intn(3)))
		t, err := identity.NewMfaToken(q)
		w.xor("NewMfaToken", t == nil, err)
		if t != nil {
			t.ValidateCode(x)
			t.ValidateCodeWithTime(y, time.Unix(r.Int63(), 0))
			t.WebAuthnRequest(y)
			t.Disable()
		}
	})
	call("MfaToken methods", func() {
		t := &identity.MfaToken{Type: pick(r, "totp", "u2f", ""), Secret: h(), Algorithm: pick(r, "sha1", "sha256", "sha512", "", h()), Period: []int{30, 1, 300}[r.Intn(3)], Digits: 4 + r.Intn(5)}
		if t.ValidateCodeWithTime(x, time.Unix(r.Int63n(1<<40), 0)) == nil && !allDigits(strings.TrimSpace(x)) {
			c.Violate([]string{"C16", "C13"}, "passcode %q accepted", x)
		}
		t.ValidateCode(y)
		f := newFido(r)
		t = &identity.MfaToken{Type: "u2f", Parameters: map[string]string{"u2f_id": f.id, "key_type": pick(r, "ec2", h()), "key_algo": pick(r, "es256", h()), "curve_xcoord": pick(r, coord(f.priv.X), h()), "curve_ycoord": pick(r, coord(f.priv.Y), coord(f.priv.X), h()), "rp_id_hash": h()}}
		if r.Intn(4) == 0 {
			delete(t.Parameters, pick(r, "u2f_id", "key_type", "key_algo", "curve_xcoord", "curve_ycoord", "rp_id_hash"))
		}
		p := f.assert(genChallenge(r), 1, 1, nil).encode()
		if r.Intn(2) == 0 {
			p = encodeDoc(r, mutateDoc(r, w, toGeneric(f.assert(genChallenge(r), 1, 1, nil).doc()), 1))
		}
		t.WebAuthnRequest(p)
	})
	call("qr.Code", func() {
		q := qr.NewCode()
		q.Type, q.Secret, q.Label, q.Issuer, q.Algorithm = pick(r, "totp", "hotp", h()), h(), h(), h(), pick(r, "sha1", "", h())
		q.Digits, q.Period, q.Counter = r.Intn(11)-1, r.Intn(200)-5, r.Intn(5)-2
		if err := q.Build(); (err == nil) == (q.Get() == "") {
			c.Violate([]string{"C16", "C20"}, "qr.Code.Build: %v with text %q", err, q.Get())
		}
		q.GetEncoded()
	})
	call("CreditCard", func() {
		cc := identity.NewCreditCard()
		cc.AddAssociation(x)
		cc.AddIssuer(y)
	})
	call("documents", func() {
		// decoding of the library's own record types
		doc := w.dumps[r.Intn(len(w.dumps))]
		var v interface{}
		json.Unmarshal([]byte(doc), &v)
		b, err := json.Marshal(mutateDoc(r, w, v, 1+r.Intn(3)))
		if err != nil {
			return
		}
		u := identity.NewUser("x")
		if json.Unmarshal(b, u) == nil && u.Valid() == nil {
			u.HasRole(x)
			u.GetFullName()
			u.GetNameClaim()
			u.GetMailClaim()
			u.GetRolesClaim()
			u.GetMetadata()
			u.GetChallenges()
			q := requests.NewRequest()
			q.WebAuthn.Request = y
			u.GetFlags(q)
			u.VerifyWebAuthnRequest(q)
			q.Key.Payload = x
			u.LookupAPIKey(q)
			for _, p := range u.Passwords {
				if !strings.HasPrefix(p.Hash, "$2a$10$") {
					return // costs of damaged hashes are not bounded
				}
			}
			u.VerifyPassword(y)
			c.Event("mutated_records_used")
		}
	})
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func runC16(c *Ctx) {
	r := c.R
	w := newWorld(c, worldOpts{weights: mix(nil), checkEvery: 40})
	w.seedUsers(2)
	u := w.users[0]
	var toks []*fido
	for i := 0; i < 2; i++ {
		f := newFido(r)
		t := mTok{typ: "u2f", comment: fmt.Sprintf("start u2f %d", i), fido: f, secret: genChallenge(r)}
		if w.addU2F(req(u), u, t, b64json(f.register()), "") == nil {
			toks = append(toks, f)
		}
	}
	for _, v := range w.users {
		q := apiReq(v)
		w.addAPIKey(q, v, "")
		m := w.genKey()
		w.addPublicKey(req(v), v, m, m.usage, "", "start", false)
	}
	if len(toks) == 0 {
		c.Harness("no tokens")
	}
	c.Also = []string{"C16"}
	saved := append([]string(nil), w.secrets...)
	w.hostile, w.odd = true, true
	n := 45
	ops := map[string]int{}
	for i := 0; i < n; i++ {
		op := w.hostileOp(toks)
		ops[op]++
		c.Event("hostile:" + op)
	}
	for i := 0; i < 12; i++ {
		w.hostileParse()
	}
	w.hostile = false
	w.secrets = saved
	c.EventN("hostile_requests", int64(n))
	w.unchanged("the hostile requests", []string{"C16"})
	w.checkReopen()
	w.maxUsers = len(w.users) + 1
	w.history(14)
	for _, f := range toks {
		have, enabled := 0, 0
		for _, k := range u.mfa {
			if k.fido != nil && k.fido.id == f.id {
				have++
				if !k.disabled {
					enabled++
				}
			}
		}
		if enabled > 0 && enabled < have {
			continue
		}
		w.judgeAssertion(u.username, "Y2hhbGxlbmdlLWFmdGVy", f.assert("Y2hhbGxlbmdlLWFmdGVy", 1, 1, nil).encode(), enabled > 0, "after hostile requests")
	}
	c.Event("databases_checked_after_hostile_requests")
}
