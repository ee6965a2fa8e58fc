package main

import (
	"fmt"
	"strings"
)

// rich fills one user with n records of every kind and lets deletions at every
// position fail and succeed.
func (w *World) rich(n int) {
	c, r := w.c, w.c.R
	fp := w.opts.faultProb
	w.opts.faultProb = 0
	u := w.pickUser()
	for i := 0; i < n; i++ {
		q := apiReq(u)
		w.addAPIKey(q, u, "")
		m := w.genKey()
		w.addPublicKey(req(u), u, m, m.usage, "", fmt.Sprint("key ", i), i%3 == 2)
		if i%2 == 0 {
			q = req(u)
			q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Comment = "totp", genSecret(r), fmt.Sprint("token ", i)
			q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "sha1", 30, 6
			w.addTOTP(q, u, mTok{typ: "totp", secret: q.MfaToken.Secret, comment: q.MfaToken.Comment, algo: "sha1", period: 30, digits: 6}, "", 0)
		} else {
			f := newFido(r)
			w.addU2F(req(u), u, mTok{typ: "u2f", comment: fmt.Sprint("token ", i), fido: f, secret: genChallenge(r)}, b64json(f.register()), "")
		}
	}
	if r.Intn(2) == 0 {
		w.opReopen()
	}
	for k := 0; k < 3*n; k++ {
		w.opts.faultProb = fp
		if k < n || r.Intn(3) > 0 {
			w.opts.faultProb = 1
		}
		switch r.Intn(4) {
		case 0:
			if len(u.mfa) > 0 {
				w.deleteMfa(req(u), u, u.mfa[r.Intn(len(u.mfa))].id)
			}
		case 1:
			if len(u.api) > 0 {
				w.deleteAPIKey(req(u), u, u.api[r.Intn(len(u.api))].id)
			}
		case 2:
			if len(u.keys) > 0 {
				w.deletePublicKey(req(u), u, u.keys[r.Intn(len(u.keys))].id)
			}
		default:
			w.changePassword(req(u), u, u.pw, genPassword(r, 8, 40))
		}
	}
	w.opts.faultProb = 0
	w.lookupAll()
	w.opGetMfa()
	w.expectIdentify(u.username, true)
	w.opts.faultProb = fp
	c.Event("rich_users")
}

// aged moves the recorded times of the users into the past or the future: no
// record is refused or forgotten for its age.
func (w *World) aged() {
	for range w.users {
		w.graft(9 + w.c.R.Intn(2))
	}
}

// described gives the users attributes that no operation sets.
func (w *World) described() {
	for range w.users {
		w.graft(5)
	}
	w.c.Event("described_users")
}

// family registers identities that share a long beginning or a long end, of
// lengths around those at which something could be cut off.
func (w *World) family() {
	c, r := w.c, w.c.R
	up := w.policy.User
	ls := []int{8, 15, 16, 20, 24, 31, 32, 40, 48, 50, 63, 64, 65, 71, 72, 80, 100, 127, 128, 200, 254, 255, 256}
	l := ls[r.Intn(len(ls))]
	for l+2 > up.MaxLength && l > 8 {
		l = ls[r.Intn(len(ls))]
	}
	p := randFrom(r, alnum, l)
	names := []string{p, p + "x", p + "y", "x" + p, "y" + p, p + randFrom(r, alnum, 2)}
	ml := 1 + r.Intn(60)
	lp := randFrom(r, alnum, ml)
	dom := randFrom(r, alnum, 1+r.Intn(60))
	mails := []string{lp + "@" + dom, lp + "x@" + dom, lp + "y@" + dom, "x" + lp + "@" + dom, lp + "@x" + dom, lp + "@" + dom + "x", lp + "@" + dom + ".x", lp + "@" + dom + ".y"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	r.Shuffle(len(mails), func(i, j int) { mails[i], mails[j] = mails[j], mails[i] })
	for i, n := range names {
		a := w.genAddUser()
		a.uname, a.mail = n, mails[i]
		if len(n) < up.MinLength || len(n) > up.MaxLength || w.byName(n) != nil || w.byMail(a.mail) != nil {
			continue
		}
		w.addUser(a)
	}
	// secrets and comments of the same kind
	u := w.pickUser()
	if u == nil {
		return
	}
	sp, cp := randFrom(r, alnum+"ABCDEFXYZ", l), strings.TrimSpace(randFrom(r, alnum+" ", l))+"."
	for i, suf := range []string{"", "x", "y"} {
		q := req(u)
		t := mTok{typ: "totp", secret: sp + suf, comment: cp + suf, algo: "sha1", period: 30, digits: 6}
		if i == 0 && l < 10 {
			t.secret = "abcdefghij" + sp
		}
		q.MfaToken.Type, q.MfaToken.Secret, q.MfaToken.Comment = "totp", t.secret, t.comment
		q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = t.algo, t.period, t.digits
		w.addTOTP(q, u, t, "", 0)
		q = apiReq(u)
		q.Key.Comment = cp + suf
		w.addAPIKey(q, u, "")
	}
	c.Event("families")
	c.Eval(fmt.Sprintf("family/%d/%d/%d", l, ml, len(dom)))
}
