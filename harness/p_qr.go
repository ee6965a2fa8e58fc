package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/qr"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C20. Code descriptions are built and the URI is read back by an independent
// reader written from RFC 3986 and the key URI format.

func init() {
	register(&Prop{ID: "C20", Level: "exploration",
		Rule:  "code descriptions (every type, algorithm in any letter case, all digits and periods in and around the permitted ranges, counters, labels, issuers and secrets of reserved, control, non-ASCII and arbitrary bytes; valid, invalid and reused) are built; oracle: verdict by an independent validity rule, URI read back by an independent reader equals the description, base64 form, passcodes computed from the URI alone accepted by a library token, no URI after a refusal",
		Cases: n2(2000, 120000), Run: runC20})
}

// otpURI is what an authenticator understands of a URI.
type otpURI struct {
	typ, label, formLabel   string
	issuer, algo            string
	secret                  []byte
	digits, period, counter int
}

func unpct(s string, plus bool) (string, error) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '%':
			if i+2 >= len(s) {
				return "", fmt.Errorf("truncated escape in %q", s)
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", fmt.Errorf("bad escape in %q", s)
			}
			b = append(b, byte(n))
			i += 2
		case c == '+' && plus:
			b = append(b, ' ')
		default:
			b = append(b, c)
		}
	}
	return string(b), nil
}

// readOTP reads a key URI.
func readOTP(s string) (*otpURI, error) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !isAlnum(c) && !(c >= 'A' && c <= 'Z') && !strings.ContainsRune("-._~%:/?@!$&'()*+,;=", rune(c)) {
			return nil, fmt.Errorf("byte %#x may not occur in a URI", c)
		}
	}
	u := &otpURI{algo: "sha1", digits: 6, period: 30}
	rest := strings.TrimPrefix(s, "otpauth://")
	if rest == s {
		return nil, fmt.Errorf("scheme")
	}
	path, query := rest, ""
	if i := strings.IndexByte(rest, '?'); i >= 0 {
		path, query = rest[:i], rest[i+1:]
	}
	i := strings.IndexByte(path, '/')
	if i < 0 {
		return nil, fmt.Errorf("no label")
	}
	u.typ = strings.ToLower(path[:i])
	raw := path[i+1:]
	if strings.Contains(raw, "/") {
		return nil, fmt.Errorf("label of several segments")
	}
	var err error
	if u.label, err = unpct(raw, false); err != nil {
		return nil, err
	}
	if u.formLabel, err = unpct(raw, true); err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	for _, kv := range strings.Split(query, "&") {
		k, v := kv, ""
		if j := strings.IndexByte(kv, '='); j >= 0 {
			k, v = kv[:j], kv[j+1:]
		}
		if k, err = unpct(k, true); err != nil {
			return nil, err
		}
		if v, err = unpct(v, true); err != nil {
			return nil, err
		}
		if seen[k] {
			return nil, fmt.Errorf("parameter %q twice", k)
		}
		seen[k] = true
		num := func(p *int) error {
			n, err := strconv.Atoi(v)
			if err != nil || strconv.Itoa(n) != v {
				return fmt.Errorf("%s is %q", k, v)
			}
			*p = n
			return nil
		}
		switch k {
		case "secret":
			if u.secret, err = b32(v); err != nil {
				return nil, err
			}
		case "issuer":
			u.issuer = v
		case "algorithm":
			u.algo = strings.ToLower(v)
		case "digits":
			err = num(&u.digits)
		case "period":
			err = num(&u.period)
		case "counter":
			err = num(&u.counter)
		}
		if err != nil {
			return nil, err
		}
	}
	if !seen["secret"] {
		return nil, fmt.Errorf("no secret")
	}
	if u.typ == "hotp" && !seen["counter"] {
		return nil, fmt.Errorf("no counter")
	}
	return u, nil
}

// b32 is a strict decoder of unpadded RFC 4648 base32.
func b32(s string) ([]byte, error) {
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	s = strings.TrimRight(s, "=")
	var out []byte
	var acc, bits uint
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(alphabet, s[i])
		if k < 0 {
			return nil, fmt.Errorf("byte %q in base32", s[i])
		}
		acc = acc<<5 | uint(k)
		bits += 5
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	if bits >= 5 || acc != 0 {
		return nil, fmt.Errorf("base32 of incomplete length %d", len(s))
	}
	return out, nil
}

func genText(r *rand.Rand, n int) string {
	switch r.Intn(8) {
	case 0:
		return randFrom(r, " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 2:
		return "Ключ " + randFrom(r, alnum, n) + " 漢字é"
	case 3:
		return pick(r, "Example Co:alice@example.com", "a%20b", "100%", "a+b", "a b", "x?secret=AAAA&issuer=y", "a/b", "a#b", "a&digits=8", "..", "%2F", "%", "%%30", "=", "https://x.y/z?q=1#f", "\u202eevil", "a\x00b", "a\nb", "tab\t", " lead", "trail ")
	case 4:
		return randFrom(r, "%0123456789abcdefABCDEF+", n)
	case 5:
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(rune(r.Intn(0x2ffff)))
		}
		return b.String()
	}
	return randFrom(r, alnum+"ABCDEFGHIJKLMNOPQRSTUVWXYZ .-_@:", n)
}

type qrDesc struct {
	typ, secret, algo, label, issuer string
	period, digits, counter          int
}

// valid judges a description: 1 valid, -1 invalid, 0 unspecified.
func (d qrDesc) valid() (int, string) {
	why := ""
	bad := func(x bool, s string) {
		if x && why == "" {
			why = s
		}
	}
	bad(d.typ != "totp" && d.typ != "hotp", "type")
	bad(d.label == "", "label")
	bad(len(d.secret) < 6, "secret")
	bad(d.digits != 0 && (d.digits < 4 || d.digits > 8), "digits")
	bad(d.period != 0 && (d.period < 30 || d.period > 180), "period")
	bad(d.typ == "hotp" && d.counter < 1, "counter")
	switch asciiLower(d.algo) {
	case "", "sha1", "sha256", "sha512":
	default:
		if l := strings.ToLower(d.algo); l == "sha1" || l == "sha256" || l == "sha512" {
			return 0, "algorithm in letters folding to ASCII"
		}
		bad(true, "algorithm")
	}
	if why != "" {
		return -1, why
	}
	if utf8.RuneCountInString(d.secret) < 6 {
		return 0, "secret of few multi-byte characters"
	}
	if d.typ == "totp" && d.counter < 0 {
		return 0, "negative counter of a totp code"
	}
	return 1, ""
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func genDesc(r *rand.Rand) qrDesc {
	d := qrDesc{typ: pick(r, "totp", "totp", "hotp"), label: genText(r, 1+r.Intn(24)), secret: genSecret(r)}
	if r.Intn(3) == 0 {
		d.secret = genText(r, 6+r.Intn(60))
	}
	if r.Intn(12) == 0 {
		d.label = genText(r, 300+r.Intn(3000))
	}
	if r.Intn(3) > 0 {
		d.issuer = genText(r, 1+r.Intn(20))
	}
	if r.Intn(3) > 0 {
		d.algo = pick(r, "sha1", "sha256", "sha512", "SHA1", "SHA256", "SHA512", "Sha256", "sHA512")
	}
	if r.Intn(3) > 0 {
		d.digits = 4 + r.Intn(5)
	}
	if r.Intn(3) > 0 {
		d.period = []int{30, 31, 45, 60, 90, 120, 179, 180, 30 + r.Intn(151)}[r.Intn(9)]
	}
	if d.typ == "hotp" || r.Intn(5) == 0 {
		d.counter = []int{1, 2, 9, 10, 100, 1 << 20, 1<<31 - 1, 1 << 31, 1<<63 - 1, 1 + r.Intn(1e6)}[r.Intn(10)]
	}
	return d
}

func (d qrDesc) spoil(r *rand.Rand) qrDesc {
	switch r.Intn(7) {
	case 0:
		d.label = ""
	case 1:
		d.secret = randFrom(r, alnum, r.Intn(6))
	case 2:
		d.digits = []int{-1, 1, 2, 3, 9, 10, 16, -6, 1 << 31, -1 << 63}[r.Intn(10)]
	case 3:
		d.period = []int{-1, -30, 1, 29, 181, 300, 3600, 1 << 40, -1 << 63, 1 + r.Intn(29)}[r.Intn(10)]
	case 4:
		d.typ = pick(r, "", "TOTP", "Hotp", "totp ", "foo", "otpauth", "totp/", "hotp?")
	case 5:
		d.algo = pick(r, "md5", "sha", "sha-1", "sha 256", "sha384", "sha224", " sha1", "sha1&digits=8", "sha512/256", "\u017fha1", "hmacsha1")
	case 6:
		d.typ = "hotp"
		d.counter = []int{0, -1, -100, -1 << 63}[r.Intn(4)]
	}
	return d
}

func (d qrDesc) set(k *qr.Code) {
	k.Type, k.Secret, k.Algorithm, k.Label, k.Issuer, k.Period, k.Digits, k.Counter = d.typ, d.secret, d.algo, d.label, d.issuer, d.period, d.digits, d.counter
}

func runC20(c *Ctx) {
	rfcSelfCheck(c)
	r := c.R
	var k *qr.Code
	for i := 0; i < 60; i++ {
		d := genDesc(r)
		if r.Intn(3) == 0 {
			d = d.spoil(r)
		}
		fresh := k == nil || r.Intn(3) == 0
		if fresh {
			k = qr.NewCode()
			if k.Get() != "" || k.GetEncoded() != "" {
				c.Violate([]string{"C20"}, "a code not built yet yields %q", k.Get())
			}
		}
		d.set(k)
		c.judgeCode(k, d, fresh)
		if r.Intn(4) == 0 { // building it again changes nothing
			t, e := k.Get(), k.GetEncoded()
			err := c.Call("Build", func() error { return k.Build() })
			if k.Get() != t || k.GetEncoded() != e || (err == nil) != (t != "") {
				c.Violate([]string{"C20"}, "building %+v once more gives %v, %q instead of %q", d, err, k.Get(), t)
			}
		}
	}
	// sizes of the secret, all lengths
	for n := 6 + c.Case%5; n < 150; n += 5 {
		d := genDesc(r)
		d.secret = string(randBytes(r, n))
		k := qr.NewCode()
		d.set(k)
		c.judgeCode(k, d, true)
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (c *Ctx) judgeCode(k *qr.Code, d qrDesc, fresh bool) {
	v, why := d.valid()
	c.Log("build %+v (fresh=%v)", d, fresh)
	err := c.Call("Build", func() error { return k.Build() })
	key := fmt.Sprintf("%v/%s/%s/%s/%d/%d/%v/%v/%v", v, why, d.typ, asciiLower(d.algo), d.digits, d.period, d.issuer != "", d.counter > 0, fresh)
	if len(key) > 150 {
		key = key[:150]
	}
	c.Eval(key)
	switch {
	case v > 0 && err != nil:
		c.Violate([]string{"C20"}, "valid description %+v refused: %v", d, err)
	case v < 0 && err == nil:
		c.Violate([]string{"C20"}, "description %+v with invalid %s accepted: %q", d, why, k.Get())
	}
	if err != nil {
		c.Event("descriptions_refused")
		if k.Get() != "" || k.GetEncoded() != "" {
			c.Violate([]string{"C20"}, "description %+v refused (%v), but yields URI %q", d, err, k.Get())
		}
		return
	}
	c.Event("uris_read_back")
	s := k.Get()
	if e := base64.StdEncoding.EncodeToString([]byte(s)); k.GetEncoded() != e {
		c.Violate([]string{"C20"}, "encoded form of %q is %q, expected %q", s, k.GetEncoded(), e)
	}
	u, err := readOTP(s)
	if err != nil {
		c.Violate([]string{"C20"}, "URI %q of %+v cannot be read: %v", s, d, err)
	}
	algo := asciiLower(d.algo)
	if algo == "" {
		algo = "sha1"
	}
	digits, period := d.digits, d.period
	if digits == 0 {
		digits = 6
	}
	if period == 0 {
		period = 30
	}
	bad := ""
	ne := func(f string, got, want interface{}) {
		if got != want {
			bad += fmt.Sprintf(" %s is %#v instead of %#v;", f, got, want)
		}
	}
	ne("type", u.typ, d.typ)
	ne("issuer", u.issuer, d.issuer)
	ne("secret", string(u.secret), d.secret)
	if v > 0 {
		ne("algorithm", u.algo, algo)
	}
	ne("digits", u.digits, digits)
	if d.typ == "totp" {
		ne("period", u.period, period)
	}
	if d.counter > 0 || d.typ == "hotp" {
		ne("counter", u.counter, d.counter)
	}
	if u.label != d.label {
		// the known finding is exactly a space read as "+"
		if strings.Contains(d.label, " ") && u.label == strings.ReplaceAll(d.label, " ", "+") && u.formLabel == d.label {
			c.KnownFinding("KF-QR-SPACE", "the label of an otpauth URI is form-encoded: a label with a space is read with \"+\" in its place")
		} else {
			ne("label", u.label, d.label)
		}
	}
	if bad != "" {
		c.Violate([]string{"C20"}, "URI %q of %+v:%s", s, d, bad)
	}
	if v < 0 || d.typ != "totp" || c.R.Intn(2) == 0 {
		return
	}
	c.Sample("%+v -> %s", d, s)
	// an authenticator knowing nothing but the URI against a library token
	want := totpWant{secret: string(u.secret), algo: u.algo, digits: u.digits, period: u.period}
	ts := genMoment(c.R, u.period)
	tok := &identity.MfaToken{Type: "totp", Secret: d.secret, Algorithm: algo, Period: period, Digits: digits}
	code := want.code(stepOf(ts, u.period))
	if err := c.Call("ValidateCodeWithTime", func() error { return tok.ValidateCodeWithTime(code, ts) }); err != nil {
		c.Violate([]string{"C20", "C13"}, "passcode %q computed from %q at %s is refused by a token of the same parameters: %v", code, s, ts.Format(time.RFC3339Nano), err)
	}
	c.Event("passcodes_from_uri_accepted")
	if wrong := flipDigit(c.R, code); !want.valid(ts)[wrong] {
		if err := tok.ValidateCodeWithTime(wrong, ts); err == nil {
			c.Violate([]string{"C20", "C13"}, "passcode %q instead of %q is accepted", wrong, code)
		}
	}
	// and at enrolment, with the parameters as described
	if !utf8.ValidString(d.secret) || c.R.Intn(3) > 0 {
		return
	}
	q := requests.NewRequest()
	q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Algorithm, q.MfaToken.Digits, q.MfaToken.Period = "totp", d.secret, d.algo, d.digits, period
	q.MfaToken.Comment = "app"
	q.MfaToken.Passcode = want.code(stepOf(time.Now(), u.period))
	var nt *identity.MfaToken
	if err := c.Call("NewMfaToken", func() error { var e error; nt, e = identity.NewMfaToken(q); return e }); err != nil {
		c.Violate([]string{"C20", "C14"}, "enrolment with the passcode computed from %q is refused: %v", s, err)
	}
	if nt.Secret != d.secret || nt.Algorithm != algo || nt.Digits != digits || nt.Period != period {
		c.Violate([]string{"C20", "C14"}, "token enrolled from %+v is %+v", d, nt)
	}
	c.Event("enrolments_from_uri")
}

func flipDigit(r *rand.Rand, s string) string {
	b := []byte(s)
	i := r.Intn(len(b))
	b[i] = '0' + (b[i]-'0'+byte(1+r.Intn(9)))%10
	return string(b)
}
