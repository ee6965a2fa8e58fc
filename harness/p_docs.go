package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
	"golang.org/x/crypto/bcrypt"
)

// C26. Documents over the whole stored format are opened, saved, copied,
// reopened and operated upon; after each step the file is compared, attribute
// by attribute, with what it must contain.

func init() {
	register(&Prop{ID: "C26", Level: "exploration",
		Rule:  "random documents over the complete stored format (every attribute absent, zero or with an arbitrary value) are opened, saved, copied, reopened and operated upon (passwords, keys, API keys, tokens, users, refused requests, sign-ins, listings); oracle: an attribute table written down independently of the library, attribute-wise comparison of file, copy and returned users with the model document",
		Cases: n2(450, 16000), Run: runC26})
}

// The stored format. Kinds: s string, b bool, i int, u64, u32, t time,
// ls list of strings, ms/mb maps, o:T object, l:T list of objects.
var docSchema = map[string][][2]string{
	"db":     {{"policy", "o:policy"}, {"users", "l:user"}},
	"policy": {{"password", "o:ppw"}, {"user", "o:pus"}},
	"ppw": {{"keep_versions", "i"}, {"min_length", "i"}, {"max_length", "i"}, {"require_uppercase", "b"}, {"require_lowercase", "b"}, {"require_number", "b"},
		{"require_non_alpha_numeric", "b"}, {"block_reuse", "b"}, {"block_password_change", "b"}},
	"pus": {{"min_length", "i"}, {"max_length", "i"}, {"allow_non_alpha_numeric", "b"}, {"allow_uppercase", "b"}},
	"user": {{"id", "s"}, {"enabled", "b"}, {"human", "b"}, {"username", "s"}, {"title", "s"}, {"name", "o:name"}, {"organization", "o:org"},
		{"names", "l:name"}, {"organizations", "l:org"}, {"street_address", "l:loc"}, {"email_address", "o:mail"}, {"email_addresses", "l:mail"},
		{"passwords", "l:pw"}, {"public_keys", "l:pub"}, {"api_keys", "l:api"}, {"mfa_tokens", "l:mfa"}, {"lockout", "o:lock"}, {"avatar", "o:img"},
		{"created", "t"}, {"last_modified", "t"}, {"revision", "i"}, {"roles", "l:role"}},
	"name": {{"first", "s"}, {"last", "s"}, {"middle", "s"}, {"preferred", "s"}, {"nickname", "b"}, {"confirmed", "b"}, {"primary", "b"}, {"legal", "b"}, {"alias", "b"}},
	"org":  {{"id", "u64"}, {"name", "s"}, {"aliases", "ls"}},
	"loc": {{"street", "s"}, {"city", "s"}, {"state", "s"}, {"zip_code", "s"}, {"confirmed", "b"}, {"current", "b"}, {"domicile", "b"},
		{"residential", "b"}, {"commercial", "b"}},
	"mail": {{"address", "s"}, {"confirmed", "b"}, {"domain", "s"}},
	"pw": {{"purpose", "s"}, {"algorithm", "s"}, {"hash", "s"}, {"cost", "i"}, {"expired", "b"}, {"expired_at", "t"}, {"created_at", "t"},
		{"disabled", "b"}, {"disabled_at", "t"}},
	"pub": {{"id", "s"}, {"usage", "s"}, {"type", "s"}, {"fingerprint", "s"}, {"fingerprint_md5", "s"}, {"comment", "s"}, {"payload", "s"},
		{"openssh", "s"}, {"expired", "b"}, {"expired_at", "t"}, {"created_at", "t"}, {"disabled", "b"}, {"disabled_at", "t"}},
	"api": {{"id", "s"}, {"prefix", "s"}, {"usage", "s"}, {"comment", "s"}, {"payload", "s"}, {"expired", "b"}, {"expired_at", "t"},
		{"created_at", "t"}, {"disabled", "b"}, {"disabled_at", "t"}},
	"mfa": {{"id", "s"}, {"type", "s"}, {"algorithm", "s"}, {"comment", "s"}, {"secret", "s"}, {"period", "i"}, {"digits", "i"}, {"expired", "b"},
		{"expired_at", "t"}, {"created_at", "t"}, {"disabled", "b"}, {"disabled_at", "t"}, {"device", "o:dev"}, {"parameters", "ms"},
		{"flags", "mb"}, {"signature_counter", "u32"}},
	"dev":    {{"name", "s"}, {"vendor", "s"}, {"type", "s"}},
	"lock":   {{"enabled", "b"}, {"start_time", "t"}, {"end_time", "t"}},
	"img":    {{"title", "s"}, {"body", "s"}, {"config", "o:imgcfg"}, {"path", "s"}},
	"imgcfg": {{"Width", "i"}, {"Height", "i"}},
	"role":   {{"name", "s"}, {"organization", "s"}},
}

type docCtx struct {
	c    *Ctx
	r    *rand.Rand
	n    int
	full bool    // every attribute present with a telling value
	fill float64 // probability of an attribute being present
	path string
	db   *identity.Database
	want obj // model document
	pw   map[string]string
}

func (d *docCtx) uniq(p string) string { d.n++; return fmt.Sprintf("%s%d", p, d.n) }

func docText(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return pick(r, " ", "null", "false", "0", "{}", "\\", "\"", "</script>&", "\u2028\u2029", "\x00", "\t\r\n", "é", "e\u0301", "\U0001F600", "\ufeff", "\ufffd", "\x7f", "/", "a/b", "%s%d", "İı", "ß")
	case 1:
		n := 1 + r.Intn(60)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			x := rune(r.Intn(0x3000))
			if r.Intn(8) == 0 {
				x = rune(0x10000 + r.Intn(0xfffff))
			}
			sb.WriteRune(x)
		}
		return sb.String()
	case 2:
		return randFrom(r, alnum+" \n+/=", 500+r.Intn(4000))
	case 3:
		return pick(r, " ", "") + randFrom(r, alnum+" ._-@<>&'\"\\", 1+r.Intn(30)) + pick(r, " ", "")
	}
	return randFrom(r, alnum, 1+r.Intn(24))
}

func docInt(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{math.MaxInt64 / 2, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, 1 << 53, 1<<53 + 1, -1, 1, 10}[r.Intn(9)]
	case 1:
		return -int64(r.Intn(100000))
	case 2:
		return r.Int63() / 4
	}
	return int64(1 + r.Intn(2000))
}

func docTime(r *rand.Rand) string {
	t := time.Unix(r.Int63n(4102444800), 0)
	switch r.Intn(8) {
	case 0:
		t = time.Date([]int{1, 9999, 1600, 1969, 2262, 2500}[r.Intn(6)], time.Month(1+r.Intn(12)), 2+r.Intn(20), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	case 1:
		t = time.Unix(0, 0)
	}
	if r.Intn(3) > 0 {
		t = t.Add(time.Duration([]int{r.Intn(1e9), r.Intn(1000) * 1e6, 1, 999999999, r.Intn(1e6) * 1e3}[r.Intn(5)]))
	}
	loc := time.UTC
	if r.Intn(3) == 0 {
		loc = time.FixedZone("", ([]int{60, -300, 330, -210, 839, -719, 1}[r.Intn(7)])*60)
	}
	return t.In(loc).Format(time.RFC3339Nano)
}

// value returns an arbitrary value of the kind; zero ones included.
func (d *docCtx) value(kind string) interface{} {
	r := d.r
	if !d.full && r.Intn(12) == 0 { // explicitly zero
		switch kind {
		case "s":
			return pick(r, "", "")
		case "b":
			return false
		case "i", "u64", "u32":
			return json.Number("0")
		case "t":
			return "0001-01-01T00:00:00Z"
		case "ls":
			return []interface{}{}
		case "ms", "mb":
			return obj{}
		}
		if strings.HasPrefix(kind, "l:") {
			return []interface{}{}
		}
		return obj{}
	}
	if !d.full && r.Intn(40) == 0 {
		return nil
	}
	switch kind {
	case "s":
		return docText(r)
	case "b":
		return d.full || r.Intn(3) > 0
	case "i":
		return json.Number(fmt.Sprint(docInt(r)))
	case "u64":
		return json.Number(fmt.Sprint([]uint64{r.Uint64(), math.MaxUint64, 1, uint64(r.Intn(1000)), 1<<53 + 1}[r.Intn(5)]))
	case "u32":
		return json.Number(fmt.Sprint([]uint32{r.Uint32(), math.MaxUint32, 1, uint32(r.Intn(1000)), 1 << 31}[r.Intn(5)]))
	case "t":
		return docTime(r)
	case "ls":
		l := []interface{}{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			if x := docText(r); r.Intn(6) > 0 {
				l = append(l, x)
			} else {
				l = append(l, "")
			}
		}
		return l
	case "ms", "mb":
		m := obj{}
		for i := 1 + r.Intn(6); i > 0; i-- {
			k := pick(r, "u2f_id", "rp_id_hash", "UP", "UV", "curve_xcoord", "x", "", docText(r))
			if kind == "mb" {
				m[k] = r.Intn(2) == 0
			} else {
				m[k] = pick(r, "", docText(r), docText(r))
			}
		}
		return m
	}
	if strings.HasPrefix(kind, "o:") {
		return d.object(kind[2:])
	}
	l := []interface{}{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		l = append(l, d.object(kind[2:]))
	}
	return l
}

// object generates an object with a random subset of its attributes.
func (d *docCtx) object(t string) obj {
	o := obj{}
	for _, f := range docSchema[t] {
		if d.full || d.r.Float64() < d.fill {
			o[f[0]] = d.value(f[1])
		}
	}
	switch t {
	case "api":
		o["prefix"] = d.uniq(randFrom(d.r, alnum, 1+d.r.Intn(22)))
		o["id"] = d.uniq(randFrom(d.r, alnum, 40))
	case "pub", "mfa":
		o["id"] = d.uniq(randFrom(d.r, alnum, 40))
		if t == "mfa" {
			if o["secret"] == nil {
				o["secret"] = "s"
			}
			o["secret"], o["comment"] = d.uniq(fmt.Sprint(o["secret"])), d.uniq(docText(d.r))
		}
	case "mail":
		// unique among the listed addresses, the only restriction
		o["address"] = d.uniq(pick(d.r, docText(d.r), "user")) + pick(d.r, "", "@example.com", "@x.y")
	}
	return o
}

var docHashes []string // hashes of "known password"

func (d *docCtx) user(i int) obj {
	r := d.r
	u := d.object("user")
	u["id"] = fmt.Sprintf("%08x-%04x-4%03x-a%03x-%012x", r.Uint32(), r.Intn(1<<16), r.Intn(1<<12), r.Intn(1<<12), r.Int63n(1<<48))
	u["username"] = d.uniq(pick(r, docText(r), "User", "usér", randFrom(r, alnum, 9)))
	if x, ok := u["passwords"].([]interface{}); !ok || len(x) == 0 {
		u["passwords"] = []interface{}{d.object("pw")}
	}
	if rev, ok := u["revision"].(json.Number); ok && len(rev) > 17 {
		u["revision"] = json.Number("123456789012345678")
	}
	if x, ok := u["email_addresses"].([]interface{}); !d.full && (!ok || len(x) == 0 || r.Intn(5) == 0) {
		return u
	} else if len(x) == 0 {
		u["email_addresses"] = []interface{}{d.object("mail")}
	}
	// this user can be operated upon
	for _, x := range u["passwords"].([]interface{}) {
		p := x.(obj)
		if h, ok := p["hash"].(string); ok && len(h) > 6 && h[0] == '$' {
			p["hash"] = "x" + h // no costs chosen by chance
		}
	}
	p := d.object("pw")
	if len(docHashes) < 4 {
		h, err := bcrypt.GenerateFromPassword([]byte("known password"), 10)
		if err != nil {
			d.c.Harness("%v", err)
		}
		docHashes = append(docHashes, string(h))
	}
	p["hash"] = docHashes[r.Intn(len(docHashes))]
	delete(p, "expired")
	delete(p, "disabled")
	l := u["passwords"].([]interface{})
	k := r.Intn(len(l) + 1)
	if r.Intn(3) > 0 {
		k = 0
	}
	nl := append(append(append([]interface{}{}, l[:k]...), p), l[k:]...)
	for i := 0; i < r.Intn(14); i++ {
		nl = append(nl, d.object("pw"))
	}
	u["passwords"] = nl
	d.pw[u["username"].(string)] = "known password"
	return u
}

// canon renders a value of a kind such that equal attributes are equal texts;
// absent, null and zero are the same.
func canon(kind string, v interface{}) string {
	if v == nil {
		return ""
	}
	bad := func() string { return fmt.Sprintf("?%s %T %v", kind, v, v) }
	switch kind {
	case "s":
		s, ok := v.(string)
		if !ok {
			return bad()
		}
		if s == "" {
			return ""
		}
		return fmt.Sprintf("%q", s)
	case "b":
		b, ok := v.(bool)
		if !ok {
			return bad()
		}
		if !b {
			return ""
		}
		return "true"
	case "i", "u64", "u32":
		n, ok := v.(json.Number)
		if !ok {
			return bad()
		}
		f, ok := new(big.Rat).SetString(string(n))
		if !ok {
			return bad()
		}
		if f.Sign() == 0 {
			return ""
		}
		return f.RatString()
	case "t":
		s, ok := v.(string)
		if !ok {
			return bad()
		}
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return bad()
		}
		if t.IsZero() {
			return ""
		}
		return t.UTC().Format(time.RFC3339Nano)
	case "ls":
		l, ok := v.([]interface{})
		if !ok {
			return bad()
		}
		if len(l) == 0 {
			return ""
		}
		return fmt.Sprintf("%q", l)
	case "ms", "mb":
		m, ok := v.(map[string]interface{})
		if !ok {
			return bad()
		}
		if len(m) == 0 {
			return ""
		}
		var out []string
		for k, x := range m {
			out = append(out, fmt.Sprintf("%q=%#v", k, x))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ",") + "}"
	}
	if kind[0] == 'o' {
		m, ok := v.(map[string]interface{})
		if !ok {
			return bad()
		}
		var out []string
		for _, f := range docSchema[kind[2:]] {
			if x := canon(f[1], m[f[0]]); x != "" {
				out = append(out, f[0]+":"+x)
			}
		}
		if len(out) == 0 {
			return ""
		}
		return "{" + strings.Join(out, " ") + "}"
	}
	l, ok := v.([]interface{})
	if !ok {
		return bad()
	}
	if len(l) == 0 {
		return ""
	}
	var out []string
	for _, x := range l {
		out = append(out, canon("o:"+kind[2:], x))
	}
	return "[" + strings.Join(out, "; ") + "]"
}

// docDiff lists the attributes in which two values differ.
func docDiff(p, kind string, a, b interface{}, out *[]string) {
	if len(*out) > 4 || canon(kind, a) == canon(kind, b) {
		return
	}
	if kind[0] == 'o' {
		m, _ := a.(map[string]interface{})
		n, _ := b.(map[string]interface{})
		for _, f := range docSchema[kind[2:]] {
			docDiff(p+"."+f[0], f[1], m[f[0]], n[f[0]], out)
		}
		return
	}
	if strings.HasPrefix(kind, "l:") {
		l, _ := a.([]interface{})
		m, _ := b.([]interface{})
		if len(l) == len(m) {
			for i := range l {
				docDiff(fmt.Sprintf("%s[%d]", p, i), "o:"+kind[2:], l[i], m[i], out)
			}
			return
		}
		*out = append(*out, fmt.Sprintf("%s has %d entries instead of %d", p, len(m), len(l)))
		return
	}
	*out = append(*out, fmt.Sprintf("%s is %s instead of %s", p, head(canon(kind, b)+" ", 120), head(canon(kind, a)+" ", 120)))
}

func decodeDoc(b []byte) (obj, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v obj
	err := d.Decode(&v)
	return v, err
}

func (d *docCtx) read(path, what string) obj {
	b, err := os.ReadFile(path)
	if err != nil {
		d.c.Violate([]string{"C26", "C05"}, "%s: %v", what, err)
	}
	v, err := decodeDoc(b)
	if err != nil {
		d.c.Violate([]string{"C26", "C05"}, "%s: the file is no JSON document: %v", what, err)
	}
	return v
}

// same compares a document with the model.
func (d *docCtx) same(what string, got obj) {
	d.c.EventN("attributes_compared", int64(countAttrs("o:db", d.want, "", nil)))
	if canon("o:db", d.want) == canon("o:db", got) {
		return
	}
	var out []string
	docDiff("", "o:db", d.want, got, &out)
	d.c.Violate([]string{"C26"}, "%s: %s", what, strings.Join(out, "; "))
}

// countAttrs counts attributes with a value and reports their paths.
func countAttrs(kind string, v interface{}, p string, f func(path, kind string, v interface{})) int {
	n := 0
	switch {
	case kind[0] == 'o':
		m, _ := v.(map[string]interface{})
		for _, x := range docSchema[kind[2:]] {
			if y, ok := m[x[0]]; ok {
				n += countAttrs(x[1], y, p+"."+x[0], f)
			}
		}
	case strings.HasPrefix(kind, "l:"):
		l, _ := v.([]interface{})
		for _, x := range l {
			n += countAttrs("o:"+kind[2:], x, p, f)
		}
	default:
		n = 1
	}
	if f != nil {
		f(p, kind, v)
	}
	return n
}

func (d *docCtx) users() []interface{} { l, _ := d.want["users"].([]interface{}); return l }

// fillDefaults applies what opening documents: missing policy limits get
// defaults, passwords without algorithm are bcrypt ones.
func (d *docCtx) fillDefaults() {
	pol, _ := d.want["policy"].(obj)
	if pol == nil {
		pol = obj{}
		d.want["policy"] = pol
	}
	for _, x := range [][3]string{{"password", "min_length", "8"}, {"password", "max_length", "128"}, {"password", "keep_versions", "10"}, {"user", "min_length", "3"}, {"user", "max_length", "50"}} {
		m, _ := pol[x[0]].(obj)
		if m == nil {
			m = obj{}
			pol[x[0]] = m
		}
		if canon("i", m[x[1]]) == "" {
			m[x[1]] = json.Number(x[2])
		}
	}
	for _, u := range d.users() {
		for _, p := range u.(obj)["passwords"].([]interface{}) {
			if canon("s", p.(obj)["algorithm"]) == "" {
				p.(obj)["algorithm"] = "bcrypt"
			}
		}
	}
}

func deepCopy(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		m := obj{}
		for k, x := range t {
			m[k] = deepCopy(x)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(t))
		for i, x := range t {
			l[i] = deepCopy(x)
		}
		return l
	}
	return v
}

func (d *docCtx) open(what string) {
	var err error
	d.c.Call("NewDatabase", func() error { d.db, err = openDB(d.path); return err })
	if err != nil {
		b, _ := os.ReadFile(d.path)
		d.c.Violate([]string{"C26", "C17"}, "%s: a document in the stored format is refused: %v; document %s", what, err, head(string(b), 3000))
	}
}

// live compares what the library hands out with the model.
func (d *docCtx) live(what string) {
	b, err := json.Marshal(d.db)
	if err != nil {
		d.c.Violate([]string{"C26"}, "%s: %v", what, err)
	}
	v, err := decodeDoc(b)
	if err != nil {
		d.c.Violate([]string{"C26"}, "%s: %v", what, err)
	}
	d.same(what+" (live)", v)
}

func runC26(c *Ctx) {
	r := c.R
	d := &docCtx{c: c, r: r, fill: []float64{1, 0.85, 0.5, 0.2, 0.05}[r.Intn(5)], pw: map[string]string{}}
	d.full = c.Case%10 == 0
	// ---- a document
	doc := obj{}
	for _, f := range docSchema["db"][:1] {
		if d.full || r.Float64() < d.fill+0.1 {
			doc[f[0]] = d.value(f[1])
		}
	}
	sane := d.full || r.Intn(4) > 0
	if p, ok := doc["policy"].(obj); ok && sane {
		if m, ok := p["password"].(obj); ok {
			for k, v := range map[string]int{"keep_versions": 1 + r.Intn(14), "min_length": 1 + r.Intn(8), "max_length": 40 + r.Intn(200)} {
				if m[k] != nil {
					m[k] = json.Number(fmt.Sprint(v))
				}
			}
		}
		if m, ok := p["user"].(obj); ok {
			for k, v := range map[string]int{"min_length": 1 + r.Intn(4), "max_length": 40 + r.Intn(100)} {
				if m[k] != nil {
					m[k] = json.Number(fmt.Sprint(v))
				}
			}
		}
	}
	us := []interface{}{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		us = append(us, d.user(i))
	}
	doc["users"] = us
	for k, v := range map[string]interface{}{"version": pick(r, "1.1.5", "1.0.0", "1.1.6", docText(r)), "revision": json.Number(fmt.Sprint(r.Intn(1e6))), "last_modified": docTime(r)} {
		if d.full || r.Intn(4) > 0 {
			doc[k] = v
		}
	}
	countAttrs("o:db", doc, "", func(p, kind string, v interface{}) {
		cl := "value"
		if x := canon(kind, v); x == "" {
			cl = "zero"
		} else if kind == "i" || kind == "t" {
			cl = fmt.Sprintf("%c%d", x[0], len(x)/4)
		} else if kind == "s" {
			cl = fmt.Sprintf("len%d", len(x)/16%8)
		}
		c.Eval(p + "/" + cl)
	})
	d.want = deepCopy(doc).(obj)
	d.fillDefaults()
	d.path = filepath.Join(c.Dir, "users.json")
	var b []byte
	if r.Intn(2) == 0 {
		var sb strings.Builder
		encodeShuffled(r, doc, &sb)
		b = []byte(sb.String())
	} else {
		b, _ = json.MarshalIndent(doc, "", "  ")
	}
	if err := os.WriteFile(d.path, b, 0600); err != nil {
		c.Harness("%v", err)
	}
	c.Log("document of %d users, %d bytes, fill %.2f", len(us), len(b), d.fill)
	c.Sample("%s", head(string(b), 400))
	d.open("opening")
	d.live("after opening")
	if r.Intn(2) == 0 {
		d.save()
	} else {
		d.copy()
		d.save()
	}
	n := 6 + r.Intn(8)
	if c.Thorough {
		n += r.Intn(14)
	}
	for i := 0; i < n; i++ {
		d.operate()
	}
	d.save()
	d.open("opening again")
	d.live("after opening again")
	d.same("file at the end", d.read(d.path, "file at the end"))
}

func (d *docCtx) save() {
	if err := d.c.Call("Save", func() error { return d.db.Save() }); err != nil {
		d.c.Violate([]string{"C26", "C05"}, "saving an opened document failed: %v", err)
	}
	d.c.Event("saves")
	d.same("saved file", d.read(d.path, "saved file"))
}

func (d *docCtx) copy() {
	p := filepath.Join(d.c.Dir, d.uniq("copy"))
	if err := d.c.Call("Copy", func() error { return d.db.Copy(p) }); err != nil {
		d.c.Violate([]string{"C26", "C05"}, "copying an opened document failed: %v", err)
	}
	d.c.Event("copies")
	d.same("copy", d.read(p, "copy"))
	db, err := openDB(p)
	if err != nil {
		d.c.Violate([]string{"C26", "C05"}, "a copy cannot be opened: %v", err)
	}
	o := d.db
	d.db = db
	d.live("opened copy")
	d.db = o
	os.Remove(p)
}

func (d *docCtx) operate() {
	c, r := d.c, d.r
	l := d.users()
	k := r.Intn(len(l))
	u := l[k].(obj)
	uname := u["username"].(string)
	var mail string
	if m, ok := u["email_addresses"].([]interface{}); ok && len(m) > 0 {
		mail = m[r.Intn(len(m))].(obj)["address"].(string)
	}
	q := requests.NewRequest()
	q.User.Username, q.User.Email = caseMix(r, uname), caseMix(r, mail)
	op := pick(r, "ChangePassword", "ChangePassword", "AddPublicKey", "DeletePublicKey", "AddAPIKey", "DeleteAPIKey", "AddMfaToken", "AddU2F", "DeleteMfaToken", "AddUser", "refused", "read", "read", "save", "copy", "reopen")
	field, change := "", "append"
	var gone string
	var call func() error
	ids := func(f string) string {
		x, _ := u[f].([]interface{})
		if len(x) == 0 {
			return "none"
		}
		return x[r.Intn(len(x))].(obj)["id"].(string)
	}
	refused := false
	switch op {
	case "save":
		d.save()
		return
	case "copy":
		d.copy()
		return
	case "reopen":
		d.open("reopening")
		d.live("after reopening")
		c.Event("reopened")
		return
	case "read":
		d.reads(q, uname, mail, k)
		d.live("after reads")
		d.same("file after reads", d.read(d.path, "file after reads"))
		return
	case "ChangePassword":
		field, change = "passwords", "password"
		q.User.OldPassword, q.User.Password = d.pw[uname], randFrom(r, alnum, 12)
		call = func() error { return d.db.ChangeUserPassword(q) }
	case "AddPublicKey":
		field = "public_keys"
		if r.Intn(4) == 0 {
			p := loadPGP(c)
			q.Key.Usage, q.Key.Payload = "gpg", p[r.Intn(len(p))].armor
		} else {
			m := keyMaterial{rsa: genRSA(r, 1024)}
			q.Key.Usage = "ssh"
			if q.Key.Payload = m.rsa.pem(); r.Intn(2) == 0 {
				q.Key.Payload = m.rsa.openssh("me@host")
			}
		}
		q.Key.Comment = "added key"
		call = func() error { return d.db.AddPublicKey(q) }
	case "DeletePublicKey":
		field, change = "public_keys", "remove"
		q.Key.ID = ids(field)
		gone = q.Key.ID
		call = func() error { return d.db.DeletePublicKey(q) }
	case "AddAPIKey":
		field = "api_keys"
		q.Key.Usage, q.Key.Comment = "api", "added API key"
		call = func() error { return d.db.AddAPIKey(q) }
	case "DeleteAPIKey":
		field, change = "api_keys", "remove"
		q.Key.ID = ids(field)
		gone = q.Key.ID
		call = func() error { return d.db.DeleteAPIKey(q) }
	case "AddMfaToken":
		field = "mfa_tokens"
		s := randFrom(r, alnum, 20)
		q.MfaToken.Type, q.MfaToken.Comment, q.MfaToken.Secret, q.MfaToken.Algorithm, q.MfaToken.Period, q.MfaToken.Digits = "totp", d.uniq("added token"), s, "sha1", 30, 6
		q.MfaToken.Passcode = refTOTP([]byte(s), "sha1", 6, stepOf(time.Now(), 30))
		call = func() error { return d.db.AddMfaToken(q) }
	case "AddU2F":
		field = "mfa_tokens"
		q.MfaToken.Type, q.MfaToken.Comment = "u2f", d.uniq("added device")
		q.WebAuthn.Register, q.WebAuthn.Challenge = b64json(newFido(r).register()), genChallenge(r)
		call = func() error { return d.db.AddMfaToken(q) }
	case "DeleteMfaToken":
		field, change = "mfa_tokens", "remove"
		q.MfaToken.ID = ids(field)
		gone = q.MfaToken.ID
		call = func() error { return d.db.DeleteMfaToken(q) }
	case "AddUser":
		field, change = "users", "user"
		n := d.uniq("newcomer")
		q.User.Username, q.User.Email, q.User.Password = n, n+"@example.net", "newcomer password"
		q.User.FullName, q.User.Roles = "New Comer", []string{"viewer"}
		call = func() error { return d.db.AddUser(q) }
	case "refused":
		refused = true
		q.Key.ID, q.MfaToken.ID = "no such", "no such"
		q.Key.Usage, q.Key.Payload, q.Key.Comment = "ssh", "garbage", "x"
		q.User.OldPassword, q.User.Password = "wrong", "another password"
		switch r.Intn(8) {
		case 0:
			call = func() error { return d.db.ChangeUserPassword(q) }
		case 1:
			call = func() error { return d.db.AddPublicKey(q) }
		case 2:
			call = func() error { return d.db.DeletePublicKey(q) }
		case 3:
			call = func() error { return d.db.AddAPIKey(q) }
		case 4:
			call = func() error { return d.db.DeleteAPIKey(q) }
		case 5:
			call = func() error { return d.db.AddMfaToken(q) }
		case 6:
			call = func() error { return d.db.DeleteMfaToken(q) }
		case 7:
			q.User.Username, q.User.Email = uname, "fresh@example.net"
			call = func() error { return d.db.AddUser(q) }
		}
	}
	c.Log("%s user %d %q %q", op, k, uname, mail)
	err := c.Call(op, call)
	got := d.read(d.path, "file after "+op)
	c.Eval(fmt.Sprintf("op/%s/%v", op, err == nil))
	if err != nil {
		c.Event("refused_operations")
		d.live("after refused " + op)
		// the file may still be older than the live state only if nothing
		// has been stored since opening, which save above excludes
		d.same("file after refused "+op, got)
		return
	}
	if refused {
		c.Violate([]string{"C26", "C25"}, "an operation on garbage succeeded")
	}
	c.Event("operations:" + op)
	gl, _ := got["users"].([]interface{})
	if change == "user" {
		if len(gl) != len(l)+1 {
			c.Violate([]string{"C26", "C03"}, "adding a user to %d left %d", len(l), len(gl))
		}
		d.want["users"] = append(append([]interface{}{}, l...), gl[len(l)])
		d.pw[q.User.Username] = q.User.Password
	} else {
		if len(gl) != len(l) {
			c.Violate([]string{"C26", "C03"}, "%s left %d of %d users", op, len(gl), len(l))
		}
		g, _ := gl[k].(map[string]interface{})
		was, _ := u[field].([]interface{})
		now, _ := g[field].([]interface{})
		next := append([]interface{}{}, was...)
		switch change {
		case "append":
			if len(now) != len(was)+1 {
				c.Violate([]string{"C26", "C11", "C12"}, "%s left %d entries of %s instead of %d", op, len(now), field, len(was)+1)
			}
			next = append(next, now[len(was)])
		case "remove":
			next = next[:0:0]
			for _, x := range was {
				if x.(obj)["id"] != gone {
					next = append(next, x)
				}
			}
		case "password":
			next = d.rotated(was, now)
			d.pw[uname] = q.User.Password
		}
		u[field] = next
		u["revision"], u["last_modified"] = g["revision"], g["last_modified"]
	}
	d.same("file after "+op, got)
	d.live("after " + op)
}

// rotated: the new password in front of the former ones, of which enabled
// ones become disabled and expired and everything else stays.
func (d *docCtx) rotated(was, now []interface{}) []interface{} {
	c := d.c
	if len(now) < 2 || len(now) > len(was)+1 {
		c.Violate([]string{"C26", "C02"}, "a password change turned %d passwords into %d", len(was), len(now))
	}
	next := []interface{}{now[0]}
	for i, x := range now[1:] {
		p := deepCopy(was[i]).(obj)
		g, _ := x.(map[string]interface{})
		if canon("b", p["disabled"]) == "" {
			for _, f := range []string{"disabled", "disabled_at", "expired", "expired_at"} {
				p[f] = g[f]
			}
			if g["disabled"] != true {
				c.Violate([]string{"C26", "C02"}, "a former password stays enabled")
			}
		}
		next = append(next, p)
	}
	return next
}

// caseMix changes the case of plain letters only.
func caseMix(r *rand.Rand, s string) string {
	if r.Intn(2) == 0 {
		return s
	}
	b := []byte(s)
	for i, x := range b {
		if x >= 'a' && x <= 'z' && r.Intn(3) == 0 {
			b[i] = x - 32
		}
	}
	return string(b)
}

// reads issues sign-ins, identifications, lookups and listings and compares
// what carries stored attributes.
func (d *docCtx) reads(q *requests.Request, uname, mail string, k int) {
	c, r := d.c, d.r
	try := func(name string, f func(*requests.Request) error) (interface{}, error) {
		x := requests.NewRequest()
		x.User.Username, x.User.Email = q.User.Username, q.User.Email
		x.User.Password = d.pw[uname]
		x.Key.Usage = pick(r, "ssh", "gpg", "")
		x.Key.Payload = randFrom(r, alnum, 72)
		x.Flags.Enabled = r.Intn(2) == 0
		err := c.Call(name, func() error { return f(x) })
		c.Event("reads:" + name)
		return x.Response.Payload, err
	}
	try("AuthenticateUser", d.db.AuthenticateUser)
	try("IdentifyUser", d.db.IdentifyUser)
	try("LookupAPIKey", d.db.LookupAPIKey)
	if mail == "" {
		return
	}
	try("GetPublicKeys", d.db.GetPublicKeys)
	try("GetAPIKeys", d.db.GetAPIKeys)
	try("GetMfaTokens", d.db.GetMfaTokens)
	try("GetUsers", d.db.GetUsers)
	p, err := try("GetUser", d.db.GetUser)
	if err != nil {
		c.Violate([]string{"C26", "C03"}, "user %q %q of a document is not found: %v", uname, mail, err)
	}
	b, err := json.Marshal(p)
	if err != nil {
		c.Violate([]string{"C26"}, "%v", err)
	}
	g, err := decodeDoc(b)
	if err != nil {
		c.Violate([]string{"C26"}, "%v", err)
	}
	var out []string
	docDiff("user", "o:user", d.users()[k], g, &out)
	if len(out) > 0 {
		c.Violate([]string{"C26"}, "the user returned differs from the document: %s", strings.Join(out, "; "))
	}
	c.Event("returned_users_compared")
}
