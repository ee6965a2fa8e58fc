package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
)

func init() {
	register(&Prop{ID: "C13", Level: "exploration",
		Rule:  "distinct (algorithm, digits, period, secret length class, position of the moment in its step, kind of candidate code, verdict) judged against an independent RFC 4226/6238 implementation; 4-digit (thorough: up to 6-digit) code spaces exhausted per token",
		Cases: n2(160, 2400), Run: runC13})
}

var rfcChecked bool

// rfcSelfCheck validates the reference against the published RFC vectors.
func rfcSelfCheck(c *Ctx) {
	if rfcChecked {
		return
	}
	rfcChecked = true
	s20 := "12345678901234567890"
	s32 := s20 + "123456789012"
	s64 := s20 + s20 + s20 + "1234"
	for _, v := range []struct {
		t             int64
		a, b, c6, alg string
	}{
		{59, "94287082", "46119246", "90693936", ""}, {1111111109, "07081804", "68084774", "25091201", ""},
		{1111111111, "14050471", "67062674", "99943326", ""}, {1234567890, "89005924", "91819424", "93441116", ""},
		{2000000000, "69279037", "90698825", "38618901", ""}, {20000000000, "65353130", "77737706", "47863826", ""},
	} {
		st := uint64(v.t / 30)
		if refTOTP([]byte(s20), "sha1", 8, st) != v.a || refTOTP([]byte(s32), "sha256", 8, st) != v.b || refTOTP([]byte(s64), "sha512", 8, st) != v.c6 {
			c.Harness("the reference TOTP does not reproduce the RFC 6238 vectors at %d", v.t)
		}
	}
	for i, x := range []string{"755224", "287082", "359152", "969429", "338314", "254676", "287922", "162583", "399871", "520489"} {
		if refTOTP([]byte(s20), "sha1", 6, uint64(i)) != x {
			c.Harness("the reference HOTP does not reproduce the RFC 4226 vectors at %d", i)
		}
	}
	c.Event("rfc_vectors_of_the_reference")
}

func genSecret(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return randFrom(r, alnum, 1+r.Intn(8))
	case 1:
		return randFrom(r, alnum, []int{63, 64, 65, 127, 128, 129, 200, 256, 257 + r.Intn(800), 1000 + r.Intn(5000)}[r.Intn(10)])
	case 2:
		return randFrom(r, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 16+r.Intn(40)) // looks like base32
	case 3:
		return randFrom(r, "0123456789abcdef", 40) // looks like hex
	case 4:
		return "ключ " + randFrom(r, alnum, 10) + " 漢"
	case 5:
		return " " + randFrom(r, alnum+" =%+/", 20) + " "
	}
	return randFrom(r, alnum+"ABCDEFGHIJKLMNOPQRSTUVWXYZ", 20)
}

type totpWant struct {
	secret, algo   string
	digits, period int
}

func (t totpWant) code(step uint64) string { return refTOTP([]byte(t.secret), t.algo, t.digits, step) }

// valid returns the codes acceptable at a moment.
func (t totpWant) valid(ts time.Time) map[string]bool {
	s := stepOf(ts, t.period)
	return map[string]bool{t.code(s - 1): true, t.code(s): true, t.code(s + 1): true}
}

func judgeTOTP(c *Ctx, tok *identity.MfaToken, t totpWant, ts time.Time, code, kind string) {
	want := t.valid(ts)[strings.Trim(code, " \t\r\n")]
	var err error
	err = c.Call("ValidateCodeWithTime", func() error { return tok.ValidateCodeWithTime(code, ts) })
	pos := "mid"
	switch off := ts.Unix() % int64(t.period); {
	case off == 0:
		pos = "first"
	case off == int64(t.period)-1:
		pos = "last"
	}
	c.Event("totp:" + kind)
	c.Eval(fmt.Sprintf("%s/%d/%d/%d/%s/%s/%v", t.algo, t.digits, t.period, (len(t.secret)+15)/16, pos, kind, want))
	if (err == nil) != want {
		s := stepOf(ts, t.period)
		c.Violate([]string{"C13"}, "token algorithm=%s digits=%d period=%d secret=%q at %s (step %d): code %q (%s) gives %v, RFC 6238 says valid=%v (codes of the adjacent steps %q %q %q)",
			t.algo, t.digits, t.period, t.secret, ts.Format(time.RFC3339Nano), s, code, kind, err, want, t.code(s-1), t.code(s), t.code(s+1))
	}
}

func genMoment(r *rand.Rand, period int) time.Time {
	var base int64
	switch r.Intn(6) {
	case 0:
		base = int64(period) * int64(1+r.Intn(4)) // just after the epoch
	case 1:
		base = 1<<31 - 200 + int64(r.Intn(400)) // 2038
	case 2:
		base = 1<<32 - 200 + int64(r.Intn(400)) // 2106
	case 3:
		base = 20000000000 + r.Int63n(200000000000)
	default:
		base = 1600000000 + r.Int63n(400000000)
	}
	switch r.Intn(4) {
	case 0:
		base -= base % int64(period)
	case 1:
		base -= base%int64(period) + 1
	case 2:
		base += int64(period) - 1 - base%int64(period)
	}
	if base < int64(period) {
		base = int64(period)
	}
	ts := time.Unix(base, []int64{0, 1, 499999999, 500000000, 999999999}[r.Intn(5)])
	switch r.Intn(3) {
	case 0:
		ts = ts.UTC()
	case 1:
		ts = ts.In(time.FixedZone("X", []int{-12 * 3600, 14 * 3600, 5*3600 + 1800, 37}[r.Intn(4)]))
	}
	return ts
}

// totpBattery judges one token at one moment with every kind of candidate.
func totpBattery(c *Ctx, tok *identity.MfaToken, t totpWant, ts time.Time) {
	r := c.R
	s := stepOf(ts, t.period)
	for d := int64(-6); d <= 6; d++ {
		if d < 0 && s < uint64(-d) {
			continue
		}
		judgeTOTP(c, tok, t, ts, t.code(s+uint64(d)), fmt.Sprintf("step%+d", d))
	}
	for _, d := range []uint64{60, 120, 2880, 1 << 20, 1 << 32} {
		judgeTOTP(c, tok, t, ts, t.code(s+d), "far")
		if s > d {
			judgeTOTP(c, tok, t, ts, t.code(s-d), "far")
		}
	}
	cur := t.code(s + uint64(r.Intn(3)) - 1)
	for _, x := range []string{" " + cur, cur + " ", "\t" + cur + "\n", "  " + cur + "\r\n "} {
		judgeTOTP(c, tok, t, ts, x, "blanks")
	}
	for dg := 1; dg <= 9; dg++ {
		if dg != t.digits {
			o := t
			o.digits = dg
			judgeTOTP(c, tok, t, ts, o.code(s), "other-length")
		}
	}
	for _, a := range []string{"sha1", "sha256", "sha512"} {
		if a != t.algo {
			o := t
			o.algo = a
			judgeTOTP(c, tok, t, ts, o.code(s), "other-algorithm")
		}
	}
	for _, p := range []int{30, 60, 31, t.period + 1, t.period * 2} {
		o := t
		o.period = p
		judgeTOTP(c, tok, t, ts, o.code(stepOf(ts, p)), "other-period")
	}
	for _, sec := range []string{t.secret + "0", t.secret[:len(t.secret)-1], strings.ToUpper(t.secret), strings.ToLower(t.secret), strings.TrimSpace(t.secret) + " ", genSecret(r), ""} {
		o := t
		o.secret = sec
		if sec == t.secret {
			continue
		}
		judgeTOTP(c, tok, t, ts, o.code(s), "other-secret")
	}
	texts := []string{"", " ", "    ", strings.TrimLeft(cur, "0"), "0" + cur, cur + "0", cur[1:], cur[:len(cur)-1], cur + cur, "+" + cur[1:], "-" + cur[1:], "0x" + cur[2:], cur[:1] + " " + cur[1:], cur[:2] + "-" + cur[2:],
		cur[:len(cur)-1] + "x", strings.Repeat("a", t.digits), strings.Repeat(" ", t.digits), strings.Repeat("\x00", t.digits), cur + "\x00", "%d" + cur[2:], strings.Repeat("0", t.digits), strings.Repeat("9", t.digits), "null", "1e" + cur[2:], cur[:len(cur)-1] + ".", strings.Replace(cur, "0", "O", 1), "٣" + cur[2:], "７" + cur[1:]}
	texts = append(texts, nearText(r, cur)...)
	texts = append(texts, nearText(r, t.code(s-1))...)
	for _, x := range texts {
		if strings.Trim(x, " \t\r\n") != strings.TrimSpace(x) {
			continue
		}
		judgeTOTP(c, tok, t, ts, x, "text")
	}
	for i := 0; i < 6; i++ {
		b := []byte(cur)
		k := r.Intn(len(b))
		b[k] = '0' + (b[k]-'0'+byte(1+r.Intn(9)))%10
		judgeTOTP(c, tok, t, ts, string(b), "one-digit-off")
		judgeTOTP(c, tok, t, ts, randFrom(r, "0123456789", t.digits), "random")
	}
	// swapped digits
	b := []byte(cur)
	k := r.Intn(len(b) - 1)
	b[k], b[k+1] = b[k+1], b[k]
	judgeTOTP(c, tok, t, ts, string(b), "swapped")
}

func runC13(c *Ctx) {
	rfcSelfCheck(c)
	r := c.R
	algos := []string{"sha1", "sha256", "sha512"}
	// the whole grid of parameters is visited across the cases
	t := totpWant{algo: algos[c.Case%3], digits: 4 + (c.Case/3)%5, secret: genSecret(r)}
	t.period = []int{30, 31, 45, 59, 60, 61, 90, 120, 180, 299, 300}[c.Case%11]
	if r.Intn(3) == 0 {
		t.period = 30 + r.Intn(271)
	}
	tok := &identity.MfaToken{Type: "totp", Secret: t.secret, Algorithm: t.algo, Digits: t.digits, Period: t.period}
	c.Log("token %+v", t)
	c.Sample("token %+v judged with codes of steps T-6..T+6, %d kinds of altered codes at 8 moments", t, 20)
	for i := 0; i < 8; i++ {
		totpBattery(c, tok, t, genMoment(r, t.period))
	}
	// every second around two step boundaries
	ts := genMoment(r, t.period)
	s := stepOf(ts, t.period)
	for _, sec := range []int64{-2, -1, 0, 1, 2} {
		for st := int64(-1); st <= 2; st++ {
			at := time.Unix((int64(s)+st)*int64(t.period)+sec, int64(r.Intn(1e9)))
			for d := int64(-3); d <= 4; d++ {
				if int64(s)+d < 0 || at.Unix() < int64(t.period) {
					continue
				}
				judgeTOTP(c, tok, t, at, t.code(uint64(int64(s)+d)), "boundary")
			}
		}
	}
	// exhaust the space of codes
	max := 4
	if c.Thorough {
		max = 5
		if c.Case%40 == 2 {
			max = 6
		}
	}
	if t.digits <= max && (c.Thorough || c.Case%2 == 0) {
		valid := t.valid(ts)
		n, hits := 1, 0
		for i := 0; i < t.digits; i++ {
			n *= 10
		}
		for i := 0; i < n; i++ {
			code := fmt.Sprintf("%0*d", t.digits, i)
			if err := tok.ValidateCodeWithTime(code, ts); err == nil {
				hits++
				if !valid[code] {
					c.Violate([]string{"C13"}, "exhaustive sweep: %+v at %v accepts %q, valid are %v", t, ts, code, valid)
				}
			}
		}
		if hits != len(valid) {
			c.Violate([]string{"C13"}, "exhaustive sweep: %+v at %v accepts %d codes, valid are %v", t, ts, hits, valid)
		}
		c.EventN("codes_exhausted", int64(n))
		c.Eval(fmt.Sprintf("sweep/%d/%s/%s", t.digits, t.secret, ts))
	}
	// the clock-based entry point
	for i := 0; i < 12; i++ {
		d := uint64(i % 9)
		t0 := time.Now()
		code := t.code(stepOf(t0, t.period) + d - 4)
		err := c.Call("ValidateCode", func() error { return tok.ValidateCode(code) })
		t1 := time.Now()
		all, any := true, false
		for st := stepOf(t0, t.period); st <= stepOf(t1, t.period); st++ {
			v := t.valid(time.Unix(int64(st)*int64(t.period), 0))[code]
			all, any = all && v, any || v
		}
		if (err == nil && !any) || (err != nil && all) {
			c.Violate([]string{"C13"}, "ValidateCode(%q) of %+v between %v and %v gives %v", code, t, t0, t1, err)
		}
		c.Event("clock_based")
		c.Eval(fmt.Sprintf("now/%v/%s", any, code))
	}
	for _, typ := range []string{"u2f", "", "hotp", "TOTP"} {
		x := *tok
		x.Type = typ
		if err := x.ValidateCode(t.code(stepOf(time.Now(), t.period))); err == nil {
			c.Violate([]string{"C13"}, "ValidateCode accepts a code for a token of type %q", typ)
		}
	}
	// tokens as registered, listed and stored
	if c.Case%4 == 0 || c.Thorough {
		w := newWorld(c, worldOpts{weights: map[string]int{"addtotp": 1}})
		w.seedUsers(1)
		u := w.users[0]
		for i := 0; i < 4; i++ {
			x := mTok{typ: "totp", algo: algos[r.Intn(3)], digits: 4 + r.Intn(5), period: []int{30, 60, 45, 300, 30 + r.Intn(271)}[r.Intn(5)], secret: genSecret(r), comment: fmt.Sprint("token ", i)}
			q := req(u)
			q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret = "totp", x.comment, x.secret
			q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = caseVariant(r, x.algo), x.period, x.digits
			w.addTOTP(q, u, x, "", 0)
		}
		for round := 0; round < 2; round++ {
			q := req(u)
			if err := c.Call("GetMfaTokens", func() error { return w.db.GetMfaTokens(q) }); err != nil {
				c.Violate([]string{"C12", "C13"}, "GetMfaTokens: %v", err)
			}
			b, ok := q.Response.Payload.(*identity.MfaTokenBundle)
			if !ok || len(b.Get()) != len(u.mfa) {
				c.Violate([]string{"C12", "C13"}, "listing of %d tokens is %T", len(u.mfa), q.Response.Payload)
			}
			for i, k := range u.mfa {
				totpBattery(c, b.Get()[i], totpWant{secret: k.secret, algo: k.algo, digits: k.digits, period: k.period}, genMoment(r, k.period))
				c.Event("registered_tokens_judged")
			}
			w.opReopen()
		}
	}
}
