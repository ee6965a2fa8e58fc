package main

import (
	"bytes"
	"crypto/ecdsa"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

func init() {
	register(&Prop{ID: "C14", Level: "exploration",
		Rule:  "distinct (kind of deviation, position, token situation, verdict) of assertions by a software authenticator: genuine ones, every gate violated alone and signed again, single-bit flips of the signed bytes, foreign users, tokens and challenges",
		Cases: n2(48, 600), Run: runC14})
	register(&Prop{ID: "C15", Level: "exploration",
		Rule:  "distinct (field of the registration message, mutation, verdict); stored records compared with what was attested, live and after reopening, and used to sign in",
		Cases: n2(64, 900), Run: runC15})
}

type fidoTok struct {
	owner   *mUser
	f       *fido
	enabled bool
	deleted bool
}

// judgeAssertion presents an assertion for a user and compares the verdict.
func (w *World) judgeAssertion(ident, challenge, payload string, want bool, kind string) {
	c := w.c
	q := requests.NewRequest()
	q.User.Username = ident
	q.WebAuthn.Challenge = challenge
	q.WebAuthn.Request = payload
	s := &step{op: "AuthenticateUser", kinds: kindsOf["AuthenticateUser"], cats: []string{"C14"}, reason: kind}
	if !want {
		s.expect = expFail
	}
	c.Log("AuthenticateUser(%q, challenge %q) with assertion %s: expect accepted=%v", ident, challenge, kind, want)
	s.q = q
	s.call = func() error {
		err := w.db.AuthenticateUser(q)
		code := 200
		if err != nil {
			code = 400
		}
		if q.Response.Code != code {
			c.Violate([]string{"C14"}, "WebAuthn sign-in (%s) returned %v with code %d", kind, err, q.Response.Code)
		}
		return err
	}
	w.runRead(s)
	c.Event(fmt.Sprintf("assertion_accepted_%v", want))
	c.Eval(fmt.Sprintf("%s/%v", kind, want))
}

func flip(b []byte, bit int) []byte {
	x := append([]byte(nil), b...)
	x[bit/8] ^= 1 << (bit % 8)
	return x
}

func (f *fido) signed(a assertion) *assertion {
	a.sig = f.sign(a.authData, a.clientData)
	return &a
}

func runC14(c *Ctx) {
	r := c.R
	w := newWorld(c, worldOpts{weights: map[string]int{"addu2f": 2, "addtotp": 1, "delmfa": 1, "chpw": 1, "addapi": 1}})
	w.maxUsers = 3
	w.seedUsers(2 + r.Intn(2))
	var toks []*fidoTok
	addTok := func(u *mUser, f *fido, disabled bool) {
		q := req(u)
		x := mTok{typ: "u2f", comment: fmt.Sprintf("key %d", len(toks)), disabled: disabled, fido: f, secret: genChallenge(r)}
		if err := w.addU2F(q, u, x, b64json(f.register()), ""); err == nil {
			toks = append(toks, &fidoTok{owner: u, f: f, enabled: !disabled})
		}
	}
	for _, u := range w.users {
		for i := 0; i < 1+r.Intn(3); i++ {
			addTok(u, newFido(r), chance(r, 0.2))
		}
		if r.Intn(2) == 0 {
			w.force = &[2]string{u.username, u.email}
			w.opAddTOTP()
			w.force = nil
		}
	}
	// two users whose tokens share the credential id but not the key
	if len(w.users) > 1 {
		g := newFido(r)
		g.id = toks[0].f.id
		if r.Intn(2) == 0 {
			g.rpHash = toks[0].f.rpHash
		}
		for _, u := range w.users {
			if u != toks[0].owner {
				addTok(u, g, false)
				break
			}
		}
	}
	// one more which is deleted again
	d := toks[r.Intn(len(toks))].owner
	addTok(d, newFido(r), false)
	last := toks[len(toks)-1]
	for _, k := range d.mfa {
		if k.fido == last.f {
			if w.deleteMfa(req(d), d, k.id) == nil {
				last.deleted = true
			}
			break
		}
	}
	for round := 0; round < 2; round++ {
		for _, t := range toks {
			w.assertions(t, toks)
		}
		w.opReopen()
		if c.Case%4 == 1 {
			w.aged()
		}
	}
	w.malformedAssertions(toks[r.Intn(len(toks))])
	w.finish()
}

func (w *World) assertions(t *fidoTok, toks []*fidoTok) {
	c, r := w.c, w.c.R
	u, f := t.owner, t.f
	live := t.enabled && !t.deleted
	// another enabled token of the same user under the same id would decide
	for _, o := range toks {
		if o != t && o.owner == u && o.f.id == f.id {
			return
		}
	}
	id := func() string {
		if r.Intn(2) == 0 {
			return caseVariant(r, u.username)
		}
		return caseVariant(r, u.email)
	}
	ch := genChallenge(r)
	cd := func(typ, chal string, cross interface{}) []byte {
		return clientDataJSON(typ, chal, pick(r, "https://localhost", "https://localhost:8443", "", "x"), cross)
	}
	base := func() assertion {
		return assertion{id: f.id, authData: f.authData(1|byte(r.Intn(256)), r.Uint32(), nil), clientData: cd("webauthn.get", ch, []interface{}{nil, false}[r.Intn(2)])}
	}
	sit := "live"
	if t.deleted {
		sit = "deleted"
	} else if !t.enabled {
		sit = "disabled"
	}
	judge := func(a *assertion, want bool, kind string) {
		w.judgeAssertion(id(), ch, a.encode(), want && live, sit+"/"+kind)
	}
	// genuine ones
	for i := 0; i < 4; i++ {
		judge(f.signed(base()), true, "genuine")
	}
	a := base()
	a.authData = f.authData(1, []uint32{0, f.counter, 1, 1<<32 - 1}[r.Intn(4)], nil)
	judge(f.signed(a), true, "genuine counter")
	a = base()
	ext := make([]byte, 1+r.Intn(300))
	r.Read(ext)
	a.authData = f.authData(0xc1, 7, ext)
	judge(f.signed(a), true, "genuine extensions")
	a = base()
	a.clientData = []byte(fmt.Sprintf(" {\n \"extra\" : {\"challenge\":\"zzz\",\"x\":[1,2]}, \"crossOrigin\":false,\"type\" :\"webauthn.get\",\"challenge\":%q }\n", ch))
	judge(f.signed(a), true, "genuine layout")
	// long client data, long challenges and much authenticator data count in full
	for _, n := range []int{40 + r.Intn(300), 300 + r.Intn(4000), pick2(r, 5000, 70000) + r.Intn(3000)} {
		long := randFrom(r, alnum62+"-_", n)
		other := []byte(long)
		i := pick2(r, n-1, r.Intn(n))
		other[i] = alnum62[(bytes.IndexByte([]byte(alnum62), other[i])+1+r.Intn(60))%62]
		// the origin or a further member
		a = base()
		origin, more := "https://"+long+".example", ""
		if r.Intn(2) == 0 {
			origin, more = "https://localhost", `,"more":"`+long+`"`
		}
		a.clientData = []byte(fmt.Sprintf(`{"type":"webauthn.get","challenge":%q,"origin":%q,"crossOrigin":false%s}`, ch, origin, more))
		g := f.signed(a)
		judge(g, true, "genuine long client data")
		x := *g
		x.clientData = bytes.Replace(append([]byte(nil), g.clientData...), []byte(long), other, 1)
		judge(&x, false, "long client data altered")
		// the challenge
		a = base()
		a.clientData = cd("webauthn.get", long, false)
		enc := f.signed(a).encode()
		w.judgeAssertion(id(), long, enc, live, sit+"/genuine long challenge")
		w.judgeAssertion(id(), string(other), enc, false, sit+"/long challenge altered")
		w.judgeAssertion(id(), long[:n-1], enc, false, sit+"/long challenge cut")
		// extensions
		a = base()
		a.authData = f.authData(0x81, r.Uint32(), []byte(long))
		g = f.signed(a)
		judge(g, true, "genuine long authenticator data")
		x = *g
		x.authData = append(append([]byte(nil), g.authData[:len(g.authData)-n]...), other...)
		judge(&x, false, "long authenticator data altered")
	}
	g := f.signed(base())
	var rs struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(g.sig, &rs); err == nil {
		alt := *g
		alt.sig, _ = asn1.Marshal(struct{ R, S *big.Int }{rs.R, new(big.Int).Sub(f.priv.Params().N, rs.S)})
		judge(&alt, f.verifies(&alt), "negated s")
		alt.sig, _ = asn1.Marshal(struct{ R, S *big.Int }{rs.S, rs.R})
		judge(&alt, false, "r and s swapped")
		alt.sig, _ = asn1.Marshal(struct{ R, S *big.Int }{big.NewInt(0), big.NewInt(0)})
		judge(&alt, false, "zero signature")
		alt.sig, _ = asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).Add(rs.R, f.priv.Params().N), rs.S})
		judge(&alt, f.verifies(&alt), "r plus order")
		alt.sig = append(rs.R.FillBytes(make([]byte, 32)), rs.S.FillBytes(make([]byte, 32))...)
		judge(&alt, f.verifies(&alt), "raw signature")
	}
	// each gate alone, signed again
	a = base()
	a.authData[32] &^= 1
	judge(f.signed(a), false, "user not present")
	a = base()
	a.authData = f.authData(0, 0, nil)
	judge(f.signed(a), false, "no flags")
	a = base()
	a.authData = f.authData(0xfe, 9, nil)
	judge(f.signed(a), false, "all flags but user present")
	for i := 0; i < 3; i++ {
		a = base()
		k := r.Intn(256)
		a.authData = flip(a.authData, k)
		judge(f.signed(a), false, fmt.Sprintf("relying party bit %d", k))
	}
	a = base()
	h := sha256.Sum256([]byte("other.example"))
	copy(a.authData, h[:])
	judge(f.signed(a), false, "other relying party")
	for _, typ := range []string{"webauthn.create", "", "webauthn.Get", "webauthn.get ", " webauthn.get", "webauthn.ge", "webauthn.gett", "payment.get", "WEBAUTHN.GET"} {
		a = base()
		a.clientData = cd(typ, ch, false)
		judge(f.signed(a), false, "type "+typ)
	}
	a = base()
	a.clientData = []byte(fmt.Sprintf(`{"challenge":%q}`, ch))
	judge(f.signed(a), false, "no type")
	for _, typ := range []string{"webauthn.get"} {
		a = base()
		a.clientData = cd(typ, ch, true)
		judge(f.signed(a), false, "cross-origin")
	}
	for _, x := range []string{genChallenge(r), "", strings.ToLower(ch), strings.ToUpper(ch), ch[1:], ch[:len(ch)-1], ch + "0", ch + " ", " " + ch, ch + ch, base64.RawURLEncoding.EncodeToString([]byte(ch)), "AAAA"} {
		if x == ch {
			continue
		}
		a = base()
		a.clientData = cd("webauthn.get", x, false)
		judge(f.signed(a), false, "client challenge altered")
		w.judgeAssertion(id(), x, f.signed(base()).encode(), false, sit+"/issued challenge altered")
	}
	for _, x := range nearText(r, ch) {
		a = base()
		a.clientData = cd("webauthn.get", x, false)
		judge(f.signed(a), false, "client challenge near")
		if x != "" {
			w.judgeAssertion(id(), x, f.signed(base()).encode(), false, sit+"/issued challenge near")
		}
	}
	for _, x := range nearText(r, "webauthn.get") {
		a = base()
		a.clientData = cd(x, ch, false)
		judge(f.signed(a), false, "type near")
	}
	a = base()
	a.clientData = []byte(`{"type":"webauthn.get","crossOrigin":false}`)
	judge(f.signed(a), false, "no challenge")
	// a challenge in the unsigned part does not count
	for _, k := range []string{"client_data", "auth_data"} {
		a = base()
		a.clientData = cd("webauthn.get", genChallenge(r), false)
		doc := f.signed(a).doc()
		doc[k] = map[string]interface{}{"challenge": ch, "type": "webauthn.get", "crossOrigin": false, "rpIdHash": hex.EncodeToString(f.rpHash[:]), "flags": map[string]bool{"UP": true}}
		w.judgeAssertion(id(), ch, b64json(doc), false, sit+"/plain "+k)
		doc = f.signed(base()).doc()
		doc[k] = map[string]interface{}{"challenge": "x", "type": "y", "crossOrigin": true, "rpIdHash": "00", "flags": map[string]bool{"UP": false}}
		w.judgeAssertion(id(), ch, b64json(doc), live, sit+"/plain ignored "+k)
	}
	a = base()
	a.authData[32] &^= 1
	doc := f.signed(a).doc()
	doc["auth_data"] = map[string]interface{}{"rpIdHash": hex.EncodeToString(f.rpHash[:]), "flags": map[string]bool{"UP": true}}
	w.judgeAssertion(id(), ch, b64json(doc), false, sit+"/plain flags")
	// identifiers
	for _, x := range append([]string{"", f.id + "x", f.id[1:], f.id + " ", " " + f.id, swapCase(f.id), f.id + "\x00"}, nearText(r, f.id)...) {
		if x == f.id || u.hasFido(x) {
			continue
		}
		a = base()
		a.id = x
		judge(f.signed(a), false, "credential id altered")
	}
	// other tokens' keys and other users
	for _, o := range toks {
		if o == t {
			continue
		}
		a = base()
		x := a
		x.sig = o.f.sign(a.authData, a.clientData)
		judge(&x, f.verifies(&x), "signed by another token")
		x = a
		x.authData = o.f.authData(1, 1, nil)
		if o.f.rpHash != f.rpHash {
			judge(f.signed(x), false, "relying party of another token")
		}
		if o.owner != u && !o.owner.hasFido(f.id) {
			w.judgeAssertion(o.owner.username, ch, f.signed(base()).encode(), false, sit+"/another user")
		}
		if o.owner != u && o.f.id == f.id {
			w.judgeAssertion(o.owner.email, ch, f.signed(base()).encode(), false, sit+"/another user, same credential id")
			w.judgeAssertion(o.owner.email, ch, o.f.signed(assertion{id: o.f.id, authData: o.f.authData(1, 2, nil), clientData: cd("webauthn.get", ch, false)}).encode(), o.enabled && !o.deleted, "same credential id, own key")
		}
	}
	for _, x := range []string{"nobody", "no-such@x.example", "", u.id} {
		if v, known := w.signInUser(x); !known || v != nil {
			continue
		}
		w.judgeAssertion(x, ch, f.signed(base()).encode(), false, sit+"/unknown user")
	}
	// unsigned alterations
	g = f.signed(base())
	n := 24
	if c.Thorough {
		n = 200
	}
	for i := 0; i < n; i++ {
		x := *g
		k := r.Intn(len(g.authData) * 8)
		x.authData = flip(g.authData, k)
		judge(&x, false, fmt.Sprintf("authenticator data bit %d", k))
		x = *g
		k = r.Intn(len(g.clientData) * 8)
		x.clientData = flip(g.clientData, k)
		judge(&x, false, fmt.Sprintf("client data bit %d", k/8))
		x = *g
		k = r.Intn(len(g.sig) * 8)
		x.sig = flip(g.sig, k)
		judge(&x, f.verifies(&x), fmt.Sprintf("signature bit %d", k/8))
	}
	for _, x := range [][]byte{nil, g.sig[:len(g.sig)-1], g.sig[1:], append(append([]byte(nil), g.sig...), 0), make([]byte, len(g.sig)), []byte("sig"), {0x30, 0}} {
		y := *g
		y.sig = x
		judge(&y, f.verifies(&y), "signature shape")
	}
	y := *g
	y.authData = append(append([]byte(nil), g.authData...), 0)
	judge(&y, false, "authenticator data extended")
	y = *g
	y.clientData = append(append([]byte(nil), g.clientData...), ' ')
	judge(&y, false, "client data extended")
	// too short authenticator data
	for _, l := range []int{0, 1, 32, 33, 36} {
		a = base()
		a.authData = a.authData[:l]
		judge(f.signed(a), false, fmt.Sprintf("authenticator data of %d bytes", l))
	}
	// other digests and schemes over the right data
	hc := sha256.Sum256(g.clientData)
	for i, m := range [][]byte{append(append([]byte(nil), g.authData...), g.clientData...), append(append([]byte(nil), hc[:]...), g.authData...), g.authData, hc[:], append(append([]byte(nil), g.authData...), []byte(hex.EncodeToString(hc[:]))...)} {
		d := sha256.Sum256(m)
		y := *g
		y.sig, _ = ecdsa.SignASN1(crand.Reader, f.priv, d[:])
		judge(&y, false, fmt.Sprintf("signature over other data %d", i))
	}
	// a used assertion does not serve another sign-in
	w.judgeAssertion(id(), genChallenge(r), g.encode(), false, sit+"/replayed")
	// directly on the listed token
	if live {
		q := req(u)
		if err := c.Call("GetMfaTokens", func() error { return w.db.GetMfaTokens(q) }); err != nil {
			c.Violate([]string{"C12", "C14"}, "GetMfaTokens: %v", err)
		}
		if b, ok := q.Response.Payload.(*identity.MfaTokenBundle); ok {
			for _, k := range b.Get() {
				if k.Type != "u2f" {
					continue
				}
				mine := k.Parameters["u2f_id"] == f.id
				for i, x := range []*assertion{f.signed(base()), func() *assertion { a := base(); a.authData[32] &^= 1; return f.signed(a) }(), func() *assertion { a := *f.signed(base()); a.clientData = append(a.clientData, ' '); return &a }()} {
					err := c.Call("WebAuthnRequest", func() error { _, e := k.WebAuthnRequest(x.encode()); return e })
					if want := mine && i == 0; (err == nil) != want {
						c.Violate([]string{"C14"}, "WebAuthnRequest of token %q with assertion %d for %q gives %v", k.Parameters["u2f_id"], i, f.id, err)
					}
					c.Eval(fmt.Sprintf("direct/%v/%d", mine, i))
				}
			}
		}
	}
	c.Sample("user %q, token %q (%s): genuine assertion %s", u.username, f.id, sit, head(g.encode(), 300))
}

func (u *mUser) hasFido(id string) bool {
	for _, k := range u.mfa {
		if k.fido != nil && k.fido.id == id {
			return true
		}
	}
	return false
}

func swapCase(s string) string {
	var b strings.Builder
	for _, x := range s {
		if x >= 'a' && x <= 'z' {
			x -= 32
		} else if x >= 'A' && x <= 'Z' {
			x += 32
		}
		b.WriteRune(x)
	}
	return b.String()
}

// malformedAssertions: requests that are no assertions at all.
func (w *World) malformedAssertions(t *fidoTok) {
	r := w.c.R
	ch := genChallenge(r)
	g := t.f.assert(ch, 1, 1, nil)
	enc := g.encode()
	for i, x := range []string{"x", " ", "{}", "null", b64json(nil), b64json([]int{1}), b64json("s"), b64json(map[string]interface{}{}), enc[:len(enc)-5], enc + "====", "e30=", base64.StdEncoding.EncodeToString([]byte("{")), base64.URLEncoding.EncodeToString([]byte{0xff, 0xfe, 0xfb})} {
		w.judgeAssertion(t.owner.username, ch, x, false, fmt.Sprintf("malformed %d", i))
	}
	for _, k := range []string{"id", "auth_data_encoded", "client_data_encoded", "signature_encoded"} {
		for _, v := range []interface{}{nil, "", " ", 1, true, []string{"x"}, map[string]string{}, "!!!", "AAAA", "bnVsbA=="} {
			doc := g.doc()
			doc[k] = v
			w.judgeAssertion(t.owner.username, ch, b64json(doc), false, fmt.Sprintf("field %s = %v", k, v))
			delete(doc, k)
			w.judgeAssertion(t.owner.username, ch, b64json(doc), false, "field missing "+k)
		}
	}
	for i, x := range []string{"null", "[]", "1", `"x"`, `{"type":1}`, `{"type":"webauthn.get","challenge":1}`, `{"type":"webauthn.get","crossOrigin":"false","challenge":"` + ch + `"}`, `{`, ""} {
		a := assertion{id: t.f.id, authData: g.authData, clientData: []byte(x)}
		w.judgeAssertion(t.owner.username, ch, t.f.signed(a).encode(), false, fmt.Sprintf("client data %d", i))
	}
}

// ---- C15 -------------------------------------------------------------------

// setPath sets doc[a][b][c] = v; v == deleteIt removes the key.
type delKey struct{}

func setPath(doc map[string]interface{}, path string, v interface{}) {
	ks := strings.Split(path, ".")
	m := doc
	for _, k := range ks[:len(ks)-1] {
		n, ok := m[k].(map[string]interface{})
		if !ok {
			return
		}
		m = n
	}
	k := ks[len(ks)-1]
	if _, ok := v.(delKey); ok {
		delete(m, k)
		return
	}
	m[k] = v
}

const pkPath = "attestationObject.authData.credentialData.publicKey."

func runC15(c *Ctx) {
	r := c.R
	w := newWorld(c, worldOpts{weights: map[string]int{"addu2f": 4, "addtotp": 1, "delmfa": 1}, faultProb: []float64{0, 0, 0, 0.2}[c.Case%4]})
	w.seedUsers(2)
	if len(w.users) == 0 {
		return
	}
	n := 0
	add := func(f *fido, doc map[string]interface{}, raw string, bad string, kind string) {
		u := w.users[r.Intn(len(w.users))]
		if raw == "" {
			raw = b64json(doc)
		}
		n++
		x := mTok{typ: "u2f", comment: fmt.Sprintf("key %d", n), fido: f, secret: genChallenge(r), disabled: r.Intn(6) == 0}
		c.Event("registration:" + bad)
		w.addU2F(req(u), u, x, raw, bad)
		c.Eval(fmt.Sprintf("reg/%s/%s", kind, bad))
	}
	num := func(v float64) interface{} { return v }
	type mut struct {
		path string
		v    interface{}
	}
	var bads []mut
	for _, p := range []string{"id", "type", "attestationObject", "attestationObject.authData", "attestationObject.authData.rpIdHash", "attestationObject.authData.flags", "attestationObject.authData.credentialData", "attestationObject.authData.credentialData.publicKey", pkPath + "key_type", pkPath + "algorithm", pkPath + "curve_type", pkPath + "curve_x", pkPath + "curve_y"} {
		bads = append(bads, mut{p, delKey{}}, mut{p, nil}, mut{p, num(77)}, mut{p, true}, mut{p, []interface{}{"x"}})
		if p != "id" && p != "attestationObject.authData.rpIdHash" {
			bads = append(bads, mut{p, "nonsense"}, mut{p, ""})
		} else {
			bads = append(bads, mut{p, ""})
		}
		if !strings.HasPrefix(p, "attestationObject.authData.flags") {
			bads = append(bads, mut{p, map[string]interface{}{}})
		}
	}
	for _, t := range []string{"Public-Key", "public-key ", "password", "public_key", "public-keys"} {
		bads = append(bads, mut{"type", t})
	}
	for _, t := range []interface{}{[]interface{}{""}, []interface{}{"usb", ""}, []interface{}{"USB"}, []interface{}{"usb", "hybrid?"}, []interface{}{"hybrid"}, []interface{}{"usb", "smart-card"}, []interface{}{"cable"}, []interface{}{"internal", "nfc-a"}, []interface{}{"BLE", "usb"}, []interface{}{"usb,nfc"}, []interface{}{" usb"}, []interface{}{1}, "usb", map[string]interface{}{"usb": true}, num(3)} {
		bads = append(bads, mut{"transports", t})
	}
	for _, k := range []float64{0, 1, 3, 4, 5, -2, 2.5, 1e300} {
		bads = append(bads, mut{pkPath + "key_type", k})
	}
	for _, k := range []interface{}{0.0, 7.0, -8.0, -35.0, -257.0, -36.0, -37.0, -38.0, -39.0, -47.0, -9.0, -65535.0, -1.0, -6.0, -7.0000001, -7.5, "-7", "ES256"} {
		bads = append(bads, mut{pkPath + "algorithm", k})
	}
	for _, k := range []interface{}{0.0, 2.0, 3.0, -1.0, 1.5, "1", "P-256"} {
		bads = append(bads, mut{pkPath + "curve_type", k})
	}
	for _, k := range []string{pkPath + "curve_x", pkPath + "curve_y"} {
		for _, l := range []int{1, 31, 33, 64} {
			b := make([]byte, l)
			r.Read(b)
			bads = append(bads, mut{k, base64.StdEncoding.EncodeToString(b)})
		}
		b := make([]byte, 32)
		bads = append(bads, mut{k, base64.StdEncoding.EncodeToString(b)})
		for i := range b {
			b[i] = 0xff
		}
		bads = append(bads, mut{k, base64.StdEncoding.EncodeToString(b)}, mut{k, "!" + base64.StdEncoding.EncodeToString(b)[1:]}, mut{k, hex.EncodeToString(b)})
	}
	for _, v := range []interface{}{num(-1), num(1 << 32), num(1.5), "3", true, []interface{}{1}} {
		bads = append(bads, mut{"attestationObject.authData.signatureCounter", v})
	}
	for _, v := range []interface{}{[]interface{}{}, "UP", map[string]interface{}{"UP": "true"}, map[string]interface{}{"UP": 1}} {
		bads = append(bads, mut{"attestationObject.authData.flags", v})
	}
	r.Shuffle(len(bads), func(i, j int) { bads[i], bads[j] = bads[j], bads[i] })
	// every mutation is tried in every eighth case in quick, in all in thorough
	k := len(bads) / 8
	if c.Thorough {
		k = len(bads)
	}
	for i := 0; i < k; i++ {
		m := bads[i]
		f := newFido(r)
		doc := f.register()
		setPath(doc, m.path, m.v)
		b, _ := json.Marshal(m.v)
		if _, ok := m.v.(delKey); ok {
			b = []byte("missing")
		}
		// a point that happens to stay valid
		add(f, doc, "", "bad "+m.path, m.path+"="+head(string(b), 60))
	}
	// off-curve points: one coordinate of another key, a flipped bit
	for i := 0; i < 3; i++ {
		f, g := newFido(r), newFido(r)
		doc := f.register()
		setPath(doc, pkPath+"curve_y", coord(g.priv.Y))
		add(f, doc, "", "bad point", "foreign coordinate")
		doc = f.register()
		y := new(big.Int).SetBytes(flip(f.priv.Y.FillBytes(make([]byte, 32)), 8+r.Intn(248)))
		setPath(doc, pkPath+"curve_y", coord(y))
		if !f.priv.Curve.IsOnCurve(f.priv.X, y) {
			add(f, doc, "", "bad point", "flipped coordinate")
		}
		doc = f.register()
		setPath(doc, pkPath+"curve_x", coord(f.priv.Y))
		setPath(doc, pkPath+"curve_y", coord(f.priv.X))
		if !f.priv.Curve.IsOnCurve(f.priv.Y, f.priv.X) {
			add(f, doc, "", "bad point", "swapped coordinates")
		}
	}
	// a coordinate without its leading zero byte, or with one more, is none
	// (RFC 9053 section 7.1.1) although it denotes the same number
	for try := 0; try < 2000; try++ {
		f := newFido(r)
		x, y := f.priv.X.Bytes(), f.priv.Y.Bytes()
		if len(x) == 32 && len(y) == 32 {
			continue
		}
		doc := f.register()
		what := "curve_x"
		if len(x) == 32 {
			what, x = "curve_y", y
		}
		setPath(doc, pkPath+what, base64.StdEncoding.EncodeToString(x))
		add(f, doc, "", "bad point", "stripped coordinate")
		doc = f.register()
		setPath(doc, pkPath+what, base64.StdEncoding.EncodeToString(append(make([]byte, 33-len(x)), x...)))
		add(f, doc, "", "bad point", "coordinate with an extra zero byte")
		c.Event("stripped_coordinate")
		break
	}
	// malformed messages
	good := b64json(newFido(r).register())
	for _, x := range []string{"x", " ", "e30", "{}", base64.StdEncoding.EncodeToString([]byte("{}")), b64json(nil), b64json("x"), b64json(1), b64json([]int{}), good[:len(good)/2], good[1:], good + "x", base64.StdEncoding.EncodeToString([]byte(`{"id":"a"`)), "====", "\x00"} {
		add(newFido(r), nil, x, "malformed", head(x, 12))
	}
	{
		u := w.users[0]
		f := newFido(r)
		// nothing presented, no challenge
		w.addU2F(req(u), u, mTok{typ: "u2f", comment: "none", fido: f, secret: genChallenge(r)}, "", "no registration")
		w.addU2F(req(u), u, mTok{typ: "u2f", comment: "none", fido: f, secret: ""}, b64json(f.register()), "no challenge")
	}
	// well-formed variations
	for i := 0; i < 12; i++ {
		f := newFido(r)
		switch i {
		case 0:
			f.transports = nil
		case 1:
			f.transports = []string{"usb", "nfc", "ble", "internal"}
		case 2:
			f.transports = []string{"internal", "ble", "usb"}
		case 3:
			f.counter = 1<<32 - 1
		case 4:
			f.counter = 0
		case 5:
			f.flags = map[string]bool{}
			for _, k := range []string{"UP", "RFU1", "UV", "RFU2a", "RFU2b", "RFU2c", "AT", "ED"} {
				f.flags[k] = r.Intn(2) == 0
			}
		case 6:
			f.id = strings.Repeat(f.id, 20)
		case 7:
			// a key whose coordinate has leading zero bytes
			for try := 0; try < 2000; try++ {
				g := newFido(r)
				if g.priv.X.BitLen() <= 248 || g.priv.Y.BitLen() <= 248 {
					f = g
					c.Event("short_coordinate")
					break
				}
			}
		}
		if i == 8 {
			f.rpText = strings.ToUpper(hex.EncodeToString(f.rpHash[:]))
		}
		doc := f.register()
		switch r.Intn(9) {
		case 0:
			setPath(doc, "attestationObject.attStmt", delKey{})
		case 1:
			setPath(doc, "attestationObject.fmt", pick(r, "none", "fido-u2f", ""))
		case 2:
			setPath(doc, "attestationObject.attStmt.x5c", []interface{}{})
		case 3:
			setPath(doc, "device", delKey{})
			setPath(doc, "clientData", delKey{})
		case 4:
			setPath(doc, "unknownField", map[string]interface{}{"a": []interface{}{1, nil}})
			setPath(doc, pkPath+"extra", []interface{}{"x"})
		case 5:
			setPath(doc, "attestationObject.authData.extensions", []interface{}{nil, "x", map[string]interface{}{"credProtect": 2}}[r.Intn(3)])
		case 6:
			setPath(doc, "success", false)
		case 7:
			if f.counter == 0 {
				setPath(doc, "attestationObject.authData.signatureCounter", delKey{})
			}
		}
		add(f, doc, "", "", fmt.Sprintf("good %d", i))
	}
	w.opts.faultProb = 0
	for round := 0; round < 2; round++ {
		for _, u := range w.users {
			d := parseUser(c, w.dumps[w.idx(u)])
			for i, k := range u.mfa {
				if k.fido == nil {
					continue
				}
				w.checkStoredFido(k.fido, &d.MfaTokens[i])
				if !k.disabled && k.fido.rpText == "" {
					ch := genChallenge(r)
					w.judgeAssertion(u.username, ch, k.fido.assert(ch, 1, k.fido.counter+1, nil).encode(), true, "registered")
				}
			}
		}
		w.opReopen()
	}
	c.Sample("%d registration messages; first mutations %v", n, func() (s []string) {
		for _, m := range bads[:3] {
			s = append(s, fmt.Sprintf("%s=%v", m.path, m.v))
		}
		return
	}())
	w.finish()
}

var _ = rand.Int
