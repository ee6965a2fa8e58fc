package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- independent reference helpers -------------------------------------

func fold(s string) string { return strings.ToLower(s) }

// bcryptKey is the effective key bcrypt derives from a secret: the first 72
// bytes of the secret, a NUL, repeated. Two secrets with the same key cannot be
// told apart by bcrypt (see known_findings.json).
func bcryptKey(s string) string {
	b := []byte(s + "\x00")
	out := make([]byte, 72)
	for i := range out {
		out[i] = b[i%len(b)]
	}
	return string(out)
}

func bcryptEquiv(a, b string) bool { return a != b && bcryptKey(a) == bcryptKey(b) }

// validEmail is an independent reading of the HTML5 e-mail grammar.
func validEmail(s string) bool {
	i := strings.IndexByte(s, '@')
	if i <= 0 {
		return false
	}
	local, dom := s[:i], s[i+1:]
	for j := 0; j < len(local); j++ {
		ch := local[j]
		if isAlnum(ch) || strings.IndexByte(".!#$%&'*+/=?^_`{|}~-", ch) >= 0 {
			continue
		}
		return false
	}
	for _, lab := range strings.Split(dom, ".") {
		if len(lab) < 1 || len(lab) > 63 {
			return false
		}
		for j := 0; j < len(lab); j++ {
			if !isAlnum(lab[j]) && lab[j] != '-' {
				return false
			}
		}
		if lab[0] == '-' || lab[len(lab)-1] == '-' {
			return false
		}
	}
	return true
}

func isAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

// ---- generators ----------------------------------------------------------

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

const alnum = "abcdefghijklmnopqrstuvwxyz0123456789"

func randFrom(r *rand.Rand, set string, n int) string {
	rs := []rune(set)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return b.String()
}

// caseVariant changes the case of letters for which lower-casing and case
// folding agree (all letters the generators use).
func caseVariant(r *rand.Rand, s string) string {
	mode := r.Intn(4)
	var b strings.Builder
	for i, ch := range s {
		switch mode {
		case 0:
			b.WriteRune(ch)
		case 1:
			b.WriteRune(upper(ch))
		case 2:
			if i == 0 {
				b.WriteRune(upper(ch))
			} else {
				b.WriteRune(unicode.ToLower(ch))
			}
		default:
			if r.Intn(2) == 0 {
				b.WriteRune(upper(ch))
			} else {
				b.WriteRune(unicode.ToLower(ch))
			}
		}
	}
	return b.String()
}

// upper is the upper-case form of a letter unless that is one of another
// letter, too (a dotless i becomes I).
func upper(ch rune) rune {
	if u := unicode.ToUpper(ch); unicode.ToLower(u) == unicode.ToLower(ch) {
		return u
	}
	return ch
}

var userPool = []string{"alice", "bob", "carol", "dave-1", "eve.x", "émile", "жук-7", "mallory", "oscar_p", "al", "ali", "alice2", "bo", "trent9", "walter", "x y z", "q<&>\"q", "tab\tbed", "line\nend", "日本語名", "a_b-c.d", "0day", "r00t", "nobody2", "zoë"}

func genUsername(r *rand.Rand, min, max int) string {
	var s string
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4, 5:
		s = userPool[r.Intn(len(userPool))]
	case 6:
		s = randFrom(r, alnum, clamp(min, 1, 200))
	case 7:
		s = randFrom(r, alnum, clamp(max, 1, 200))
	default:
		s = randFrom(r, alnum+"-_.", 3+r.Intn(12))
	}
	for len(s) < min && len(s) < 300 {
		s += randFrom(r, alnum, 1)
	}
	if max > 0 && len(s) > max {
		s = randFrom(r, alnum, max)
	}
	if chance(r, 0.3) {
		s = caseVariant(r, s)
	}
	return s
}

func clamp(n, lo, hi int) int {
	if n < lo {
		return lo
	}
	if n > hi {
		return hi
	}
	return n
}

var mailPool = []string{"alice@example.com", "bob@example.com", "carol@example.org", "a@b.c", "x@y", "b@c.d", "eve+tag@mail.example.co.uk", "o'brien@irish.ie", "jim-bo@a-b.example", "user_1@sub.domain.tld", "q@qq.q", "dave@localhost", "1@2.3", "m.m@m.m.m", "{x}|~@weird.example", "alice@example.org", "bob@example.co"}

func genEmail(r *rand.Rand) string {
	var s string
	if r.Intn(3) > 0 {
		s = mailPool[r.Intn(len(mailPool))]
	} else {
		s = randFrom(r, alnum, 1+r.Intn(8)) + "@" + randFrom(r, alnum, 1+r.Intn(6))
		for i := r.Intn(3); i > 0; i-- {
			s += "." + randFrom(r, alnum, 1+r.Intn(4))
		}
		if r.Intn(3) == 0 {
			// all that the local part may consist of
			i := strings.IndexByte(s, '@')
			s = s[:i/2] + pick(r, "..", "--", "__", "++", randFrom(r, ".!#$%&'*+/=?^_`{|}~-", 1+r.Intn(4))) + s[i/2:]
		}
	}
	if chance(r, 0.3) {
		s = caseVariant(r, s)
	}
	return s
}

// nearMails derives addresses that are another address than the given one,
// although common normalisations (tags, dots, hosts, blanks, display forms)
// would identify them.
func nearMails(r *rand.Rand, m string) []string {
	i := strings.LastIndexByte(m, '@')
	if i < 1 || i+1 >= len(m) {
		return []string{m + "x"}
	}
	l, d := m[:i], m[i+1:]
	v := []string{
		l + "+" + randFrom(r, alnum, 1+r.Intn(5)) + "@" + d, l + "+@" + d, l + "-list@" + d, l + ".@" + d, "." + l + "@" + d, l + "@" + d + ".", l + "@www." + d, l + "@mail." + d,
		l + "@" + d + ".com", l + "@x" + d, l + "x@" + d, "x" + m, m + "x", l + "@" + d[:len(d)-1], l[1:] + "@" + d, l[:len(l)-1] + "@" + d,
		strings.ReplaceAll(l, ".", "") + "@" + d, strings.ReplaceAll(l, "_", "-") + "@" + d, strings.SplitN(l, "+", 2)[0] + "@" + d, l[:1] + "." + l[1:] + "@" + d,
		l[:1] + ".." + l[1:] + "@" + d, strings.Replace(l, ".", "..", 1) + "@" + d, strings.Replace(l, "..", ".", -1) + "@" + d,
		" " + m, m + " ", m + "\n", "\t" + m, m + "\x00", "\ufeff" + m, m + "\u200b", "<" + m + ">", "mailto:" + m, "X <" + m + ">", "\"" + l + "\"@" + d, m + "," + m, m + ";", l + "@@" + d, l + " @" + d, l + "@ " + d,
		l + "@" + strings.SplitN(d, ".", 2)[0], l, d, l + "@" + d + "@" + d, d + "@" + l, l + "@", "@" + d, l + "@localhost", l + "@example.com", l + "@googlemail.com", l + "(c)@" + d,
	}
	if j := strings.LastIndexByte(d, '.'); j > 0 {
		v = append(v, l+"@"+d[j+1:], l+"@"+d[:j], l+"@x."+d[j+1:])
	}
	if j := strings.IndexByte(d, '.'); j > 0 {
		v = append(v, l+"@"+d[j+1:], l+"@*"+d[j:])
	}
	return v
}

// nearNames does the same for usernames.
func nearNames(r *rand.Rand, n, m, id string) []string {
	rs := []rune(n)
	v := []string{
		" " + n, n + " ", n + "\n", "\t" + n, n + "\x00", n + "\x00x", "\ufeff" + n, n + "\u200b", "\u00a0" + n, n + "x", "x" + n, n + ".", "." + n, n + n, n + "0", n + "-1", n + "1",
		"DOMAIN\\" + n, "org/" + n, n + "/", "/" + n, "*", n + "*", n[:1] + "*", "_", "cn=" + n, "\"" + n + "\"", n + "'--", "~" + n, "user:" + n, n + ":x",
		strings.ReplaceAll(n, "-", ""), strings.ReplaceAll(n, ".", ""), strings.ReplaceAll(n, "_", "-"), strings.ReplaceAll(n, "-", "_"), strings.ReplaceAll(n, " ", ""), strings.TrimRight(n, "0123456789"), strings.TrimSpace(n),
		string(rs[1:]), string(rs[:len(rs)-1]), string(rs[:1]), id, strings.ReplaceAll(id, "-", ""), strings.SplitN(m, "@", 2)[0], n + "@", "@" + n, n + "@" + n, n + "@localhost", n + "@" + m[strings.LastIndexByte(m, '@')+1:],
		strings.ReplaceAll(n, "0", "o"), strings.ReplaceAll(n, "o", "0"), strings.ReplaceAll(n, "l", "1"), strings.ReplaceAll(n, "é", "e"), strings.ReplaceAll(n, "é", "e\u0301"), strings.ReplaceAll(n, "e", "é"), strings.ReplaceAll(n, "i", "ı"), strings.ReplaceAll(n, "a", "а"),
		fmt.Sprintf("%q", n), strings.ReplaceAll(n, "a", "ａ"), "", " ", "0", "nobody", "root", "admin",
	}
	return v
}

// nearText derives texts that differ from s although common normalisations
// (case, blanks, padding, alphabets, escapes, Unicode folds) would identify
// them.
func nearText(r *rand.Rand, s string) []string {
	if s == "" {
		return []string{" ", "x", "\x00"}
	}
	v := append(pwVariants(r, s), nearNames(r, s, s+"@x", s)...)
	v = append(v, s+"=", s+"==", "="+s, strings.TrimRight(s, "="), strings.ReplaceAll(s, "-", "+"), strings.ReplaceAll(s, "+", "-"), strings.ReplaceAll(s, "_", "/"), strings.ReplaceAll(s, "/", "_"),
		strings.ReplaceAll(s, "-", "_"), strings.ReplaceAll(s, "k", "\u212a"), strings.ReplaceAll(s, "s", "\u017f"), strings.ReplaceAll(s, "K", "\u212a"), strings.ReplaceAll(s, "I", "\u0130"),
		s+",", s+";", s+"#", s+"?", s+"&", s+"%00", s+"%20", s+"\\", "0x"+s, "0"+s, s+".0", s+"e0", "["+s+"]", "{"+s+"}", "("+s+")", strings.Trim(s, "{}"), s+"\u00ad", s+"\u200d", s+"\u0301", s+"\x7f", "\r"+s, s+"\v", s+"\u2028", s+"\u00a0")
	var out []string
	seen := map[string]bool{s: true}
	for _, x := range v {
		if !seen[x] && !strings.Contains(x, "%!") {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// nearPlain picks a near text that is valid UTF-8, not blank and free of
// formatting directives.
func nearPlain(r *rand.Rand, s string) string {
	v := nearText(r, s)
	for i := 0; i < 40; i++ {
		x := v[r.Intn(len(v))]
		if utf8.ValidString(x) && !blank(x) && !strings.Contains(x, "%") && len(x) < 250 {
			return x
		}
	}
	return s + "x"
}

// near picks a near identifier of a user.
func near(r *rand.Rand, u *mUser) string {
	v := nearNames(r, u.username, u.email, u.id)
	if r.Intn(2) == 0 {
		v = nearMails(r, u.email)
	}
	s := v[r.Intn(len(v))]
	if r.Intn(4) == 0 {
		s = caseVariant(r, s)
	}
	return s
}

var pwRunes = alnum + "ABCDEFGHIJKLMNOPQRSTUVWXYZ !@#$%^&*()-_=+[]{}|;:'\",.<>/?`~\\éжü漢🔑"

// genPassword makes a password whose byte length lies in [min,max].
func genPassword(r *rand.Rand, min, max int) string {
	n := min + r.Intn(6)
	switch r.Intn(12) {
	case 0:
		n = min
	case 1:
		n = max
	case 2:
		n = 72
	case 3:
		n = 73 + r.Intn(20)
	case 4:
		n = 71
	case 5:
		n = min + 1
	}
	if n < min {
		n = min
	}
	if n > max {
		n = max
	}
	if n < 1 {
		n = 1
	}
	var s string
	if n > 3 && r.Intn(12) == 0 {
		// bytes that are no text in UTF-8
		b := []byte(randFrom(r, alnum, n))
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(n)] = byte(0x80 + r.Intn(0x80))
		}
		return string(b)
	}
	switch r.Intn(8) {
	case 0: // padded
		s = pick(r, " ", "\t", "  ", "\n", "\u00a0") + randFrom(r, alnum, maxi(n-4, 1)) + pick(r, " ", "\t ", "\r\n", "")
	case 1: // padded at the end only
		s = randFrom(r, alnum, maxi(n-1, 1)) + " "
	case 2:
		s = randFrom(r, alnum, n)
	default:
		s = randFrom(r, pwRunes, n)
	}
	// fit to the byte length
	b := []rune(s)
	for len(string(b)) > n && len(b) > 1 {
		b = b[:len(b)-1]
	}
	s = string(b)
	for len(s) < n {
		s += randFrom(r, alnum, 1)
	}
	if blank(s) {
		s = randFrom(r, alnum, n)
	}
	if len(s) > max {
		s = randFrom(r, alnum, max)
	}
	return s
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// latin1 takes the bytes for the first 256 characters of Unicode.
func latin1(s string) string {
	var rs []rune
	for i := 0; i < len(s); i++ {
		rs = append(rs, rune(s[i]))
	}
	return string(rs)
}

// pwVariants derives attempts that must not sign in although they are close.
func pwVariants(r *rand.Rand, pw string) []string {
	v := []string{
		pw + " ", " " + pw, pw + "\n", "\t" + pw, strings.TrimSpace(pw), pw + "x", pw + pw,
		strings.ToUpper(pw), strings.ToLower(pw), caseVariant(r, pw), "", " ",
	}
	rs := []rune(pw)
	if len(rs) > 1 {
		v = append(v, string(rs[1:]), string(rs[:len(rs)-1]))
		i := r.Intn(len(rs))
		c := append([]rune(nil), rs...)
		c[i] ^= 1
		v = append(v, string(c))
		j := r.Intn(len(rs))
		c = append([]rune(nil), rs...)
		c[i], c[j] = c[j], c[i]
		v = append(v, string(c))
		v = append(v, string(rs[:len(rs)/2]))
	}
	b := []byte(pw)
	if len(b) > 0 {
		i := r.Intn(mini(len(b), 72))
		b[i] ^= 1 << uint(r.Intn(7))
		v = append(v, string(b))
	}
	v = append(v, pw+"\x00", "\x00"+pw, pw+"\x00"+pw)
	inv := strings.Map(func(x rune) rune {
		if unicode.IsUpper(x) {
			return unicode.ToLower(x)
		}
		return unicode.ToUpper(x)
	}, pw)
	v = append(v, inv, "\ufeff"+pw, pw+"\u200b", pw+"\r\n", strings.TrimRight(pw, "\r\n"), strings.Join(strings.Fields(pw), " "), strings.ReplaceAll(pw, " ", ""),
		strings.ReplaceAll(pw, " ", "+"), strings.ReplaceAll(pw, "+", " "), strings.ReplaceAll(pw, "&", "&amp;"), strings.ReplaceAll(pw, "é", "e\u0301"), strings.ReplaceAll(pw, "é", "e"),
		strings.ReplaceAll(pw, "\u00a0", " "), "\""+pw+"\"", strings.Trim(pw, "\"'"), url.QueryEscape(pw), base64.StdEncoding.EncodeToString([]byte(pw)), strings.ToValidUTF8(pw, ""), strings.ToValidUTF8(pw, "?"), string([]rune(pw)), latin1(pw), strings.TrimLeft(pw, "0"), strings.TrimRight(pw, "!.?"),
		firstByte(pw), strings.Map(func(x rune) rune {
			if x > 126 || x < 32 {
				return -1
			}
			return x
		}, pw))
	if len(rs) > 1 {
		v = append(v, strings.ToUpper(string(rs[:1]))+string(rs[1:]), strings.ToLower(string(rs[:1]))+string(rs[1:]))
	}
	for _, k := range []int{8, 16, 32, 48, 50, 55, 56, 63, 64, 70, 71} {
		if k < len(pw) {
			v = append(v, pw[:k], pw[:k]+randFrom(r, alnum, len(pw)-k))
		}
	}
	return v
}

var firstNames = []string{"Alice", "Bob", "Żaneta", "Jean-Luc", "O'Neil", "李", "mary", "X", "Émile"}
var lastNames = []string{"Smith", "Jones", "van", "O'Brien", "Müller", "Иванов", "王", "McDonald", "Doe-Roe", "Z"}

func pick2s(r *rand.Rand, a, b *string) *string {
	if r.Intn(2) == 0 {
		return a
	}
	return b
}

// genName gives the text of a full name and its expected "Last, First" form.
func genName(r *rand.Rand) (text, first, last string) {
	if chance(r, 0.25) {
		return pick(r, "", " ", "\t "), "", ""
	}
	first, last = firstNames[r.Intn(len(firstNames))], lastNames[r.Intn(len(lastNames))]
	if r.Intn(12) == 0 {
		// A name may be long.
		part := pick2s(r, &first, &last)
		for *part += randFrom(r, alnum, 1+r.Intn(pick2(r, 60, 600))); r.Intn(3) == 0; {
			*part += pick(r, "é", "漢", "'", "-", "<&>")
		}
	}
	switch r.Intn(4) {
	case 0:
		return first + " " + last, first, last
	case 1:
		return last + ", " + first, first, last
	case 2:
		first += " " + firstNames[r.Intn(len(firstNames))]
		return last + ", " + first, first, last
	default:
		return " " + last + "," + first + " ", first, last
	}
}

var rolePool = []string{"viewer", "editor", "admin", "org/viewer", "org/admin", "acme/team/lead", "Viewer", "роль", "a b", "org/", "acme/team", "x/y/z/w", "acme /ops", "acme/ ops", "north west/east", "authp/admin", "viewer/x", "viewer/viewer", "org/org"}

// genRoles gives role texts and the expected claims (trimmed, deduplicated).
func genRoles(r *rand.Rand) (texts, claims []string) {
	n := r.Intn(5)
	long := r.Intn(25) == 0
	if long {
		n = 8 + r.Intn(60)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		s := rolePool[r.Intn(len(rolePool))]
		if long && r.Intn(5) > 0 {
			s = randFrom(r, alnum, 1+r.Intn(12))
			if r.Intn(3) == 0 {
				s = randFrom(r, alnum, 1+r.Intn(100)) + "/" + s
			}
			if r.Intn(20) == 0 {
				s += randFrom(r, alnum+"/-.", 200+r.Intn(3000)) + "x"
			}
		}
		t := s
		if chance(r, 0.2) {
			t = pick(r, " ", "\t") + s + " "
		}
		texts = append(texts, t)
		if !seen[s] {
			seen[s] = true
			claims = append(claims, s)
		}
	}
	return
}

func genComment(r *rand.Rand) string {
	if r.Intn(30) == 0 {
		return "c" + randFrom(r, alnum62+" ", 20+r.Intn(pick2(r, 200, 5000))) + "x"
	}
	return pick(r, "laptop", "phone", "work key", "ключ", "a\"b\\c", "yubi <&> key", "line1\nline2", "c") + fmt.Sprintf("-%d", r.Intn(12))
}

// genNote is a comment that may be missing.
func genNote(r *rand.Rand) string {
	if r.Intn(8) == 0 {
		return ""
	}
	return genBlankNote(r)
}

// genBlankNote is a comment that may have blanks around it.
func genBlankNote(r *rand.Rand) string {
	s := genComment(r)
	if r.Intn(6) > 0 {
		return s
	}
	return pick(r, " "+s, s+" ", "\t"+s, s+"\n", " "+s+" ", " ")
}

func firstByte(s string) string {
	if s == "" {
		return ""
	}
	return s[:1]
}

func pick2(r *rand.Rand, a, b int) int {
	if r.Intn(2) == 0 {
		return a
	}
	return b
}
