package main

import (
	"crypto/md5"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/requests"
)

// C19. Generated values are collected from many calls, goroutines, processes
// and databases; form, uniqueness and distribution are tested, and an
// adversary who knows the clock tries to reproduce them.

func init() {
	register(&Prop{ID: "C19", Level: "exploration",
		Rule:  "values of every generator over all lengths and ranges, from concurrent goroutines, from processes started for it (also with the runtime's automatic seeding of math/rand disabled) and from databases; oracle: form, global uniqueness, chi-square of characters, positions and successive pairs (threshold beyond 12 standard deviations), and search for a clock-derived seed (every nanosecond of the process start resp. of the call, coarser clocks, math/rand and math/rand/v2) that reproduces an observed value. Distinct: (generator, length or range, kind of test)",
		Cases: n2(120, 1800), Run: runC19, Parent: parentC19,
		Assumptions: []string{"predictability is judged against seeds derived from the clock, fixed seeds and the process ID with the generators of the standard library, not against an arbitrary adversary"}})
	childCmds["random"] = randomChild
}

const alnum62 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func runC19(c *Ctx) {
	switch c.Case % 6 {
	case 0:
		c19Stats(c)
	case 1:
		c19Forms(c)
	case 2:
		c19Child(c)
	case 3:
		c19Calls(c)
	case 4:
		c19Concurrent(c)
	case 5:
		c19World(c)
	}
}

func parentC19(p *ParentCtx) {
	seen := map[string]int{}
	n := 0
	for i, m := range p.Blobs {
		for k, kind := range m {
			if !strings.HasPrefix(k, "id:") {
				continue
			}
			n++
			if j, ok := seen[k]; ok {
				p.Violate(-1, nil, "%s %q was generated by worker processes %d and %d", kind, k[3:], j, i)
			}
			seen[k] = i
		}
	}
	p.Res.Events["values_compared_across_processes"] += int64(n)
	p.Eval("across processes")
}

func allIn(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return true
}

func (c *Ctx) note(kind, s string) {
	if len(s) >= 20 {
		if _, ok := c.res.Blobs["id:"+s]; ok {
			c.Violate([]string{"C19"}, "%s %q was generated before", kind, s)
		}
		c.res.Blobs["id:"+s] = kind
		c.Event("values:" + kind)
	}
}

func c19Forms(c *Ctx) {
	r := c.R
	str := func(what string, f func() string) string {
		var s string
		c.Log("%s", what)
		c.Call(what, func() error { s = f(); return nil })
		return s
	}
	form := func(what, s, set string, lo, hi int) {
		c.Eval(what)
		if len(s) < lo || len(s) > hi || !allIn(s, set) {
			c.Violate([]string{"C19"}, "%s gives %q (%d bytes), expected %d to %d characters of %s", what, s, len(s), lo, hi, set)
		}
	}
	for n := 0; n <= 300; n++ {
		w := fmt.Sprintf("GetRandomString(%d)", n)
		want := n
		if n == 0 {
			want = 40
		}
		s := str(w, func() string { return identity.GetRandomString(n) })
		form(w, s, alnum62, want, want)
		c.note("string", s)
		w = fmt.Sprintf("NewRandomString(%d)", n)
		if n == 0 {
			want = 32
		}
		s = str(w, func() string { return identity.NewRandomString(n) })
		form(w, s, "abcdefghijklmnopqrstuvwxyz0123456789", want, want)
		c.note("string", s)
	}
	for i := 0; i < 300; i++ {
		a, b := r.Intn(120), r.Intn(120)
		switch r.Intn(5) {
		case 0:
			b = a
		case 1:
			b = a + 1
		case 2:
			a, b = 72, 96
		}
		lo, hi := mini(a, b), maxi(a, b)
		w := fmt.Sprintf("GetRandomStringFromRange(%d,%d)", a, b)
		s := str(w, func() string { return identity.GetRandomStringFromRange(a, b) })
		form(w, s, alnum62, lo, hi)
		c.note("string", s)
	}
	for _, ab := range [][2]int{{24, 48}, {48, 24}, {72, 96}, {r.Intn(20), 40 + r.Intn(60)}, {60 + r.Intn(60), r.Intn(20)}} {
		// A length within a range is a random one: of 100 strings from a range
		// of 20 lengths and more, all of one length would be a wonder.
		lens := map[int]bool{}
		for i := 0; i < 100; i++ {
			s := str("GetRandomStringFromRange", func() string { return identity.GetRandomStringFromRange(ab[0], ab[1]) })
			lens[len(s)] = true
			c.note("string", s)
		}
		c.Eval(fmt.Sprintf("lengths of a range %v", ab))
		c.Event("range lengths compared")
		if len(lens) < 4 {
			c.Violate([]string{"C19"}, "100 strings of GetRandomStringFromRange(%d,%d) have only %d different lengths", ab[0], ab[1], len(lens))
		}
	}
	for i := 0; i < 300; i++ {
		id := str("NewID", identity.NewID)
		c.Eval("NewID")
		if !uuidRe.MatchString(id) {
			c.Violate([]string{"C19"}, "NewID gives %q, which is not a random UUID", id)
		}
		c.note("uuid", id)
	}
	for _, n := range []int{1000, 4096, 70000} {
		s := str("GetRandomString(long)", func() string { return identity.GetRandomString(n) })
		form("long string", s, alnum62, n, n)
		c.note("string", s)
	}
}

// checksums gives functions of a text somebody might append to it, as indexes
// into the alphabet.
func checksums(s, set string) map[string]int {
	k := len(set)
	var codes, idx, xor, weighted, widx, poly int
	for i := 0; i < len(s); i++ {
		x := strings.IndexByte(set, s[i])
		codes += int(s[i])
		idx += x
		xor ^= int(s[i])
		weighted += (i + 1) * int(s[i])
		widx += (i%2 + 1) * x
		poly = (poly*31 + int(s[i])) & (1<<31 - 1)
	}
	h := fnv.New32a()
	h.Write([]byte(s))
	return map[string]int{"sum": codes % k, "index sum": idx % k, "exclusive or": xor % k, "weighted sum": weighted % k, "Luhn sum": widx % k, "polynomial": poly % k,
		"CRC": int(crc32.ChecksumIEEE([]byte(s)) % uint32(k)), "Adler": int(adler32.Checksum([]byte(s)) % uint32(k)), "FNV": int(h.Sum32() % uint32(k)),
		"MD5": int(md5.Sum([]byte(s))[0]) % k, "SHA-256": int(sha256.Sum256([]byte(s))[0]) % k}
}

// chi2 gives the statistic and whether it is beyond any doubt too large.
func chi2(counts []int64) (x float64, dof int, bad bool) {
	var n int64
	for _, k := range counts {
		n += k
	}
	e := float64(n) / float64(len(counts))
	for _, k := range counts {
		d := float64(k) - e
		x += d * d / e
	}
	dof = len(counts) - 1
	lim := float64(dof) + 12*sqrt(2*float64(dof))
	return x, dof, x > lim
}

func sqrt(x float64) float64 {
	g := x
	for i := 0; i < 60; i++ {
		g = (g + x/g) / 2
	}
	return g
}

func c19Stats(c *Ctx) {
	r := c.R
	type gen struct {
		name string
		set  string
		f    func() string
	}
	n := 1 + r.Intn(100)
	gens := []gen{
		{"GetRandomString(40)", alnum62, func() string { return identity.GetRandomString(40) }},
		{fmt.Sprintf("GetRandomString(%d)", n), alnum62, func() string { return identity.GetRandomString(n) }},
		{"GetRandomStringFromRange(72,96)", alnum62, func() string { return identity.GetRandomStringFromRange(72, 96) }},
		{"NewRandomString(32)", "abcdefghijklmnopqrstuvwxyz0123456789", func() string { return identity.NewRandomString(32) }},
		{fmt.Sprintf("NewRandomString(%d)", n), "abcdefghijklmnopqrstuvwxyz0123456789", func() string { return identity.NewRandomString(n) }},
		{"NewRandomString(80)", "abcdefghijklmnopqrstuvwxyz0123456789", func() string { return identity.NewRandomString(80) }},
		{fmt.Sprintf("GetRandomStringFromRange(%d,%d)", n, n+9), alnum62, func() string { return identity.GetRandomStringFromRange(n, n+9) }},
	}
	g := gens[(c.Case/6)%len(gens)]
	total := 150000
	if c.Thorough {
		total = 400000
	}
	k := len(g.set)
	chars := make([]int64, k)
	pairs := make([]int64, k*k)
	first, last := make([]int64, k), make([]int64, k)
	pos := map[int][]int64{}
	// differences of characters at chosen distances within a value, and of the
	// characters counted from both ends
	dist := map[int][]int64{}
	ends := map[int][]int64{}
	bump := func(m map[int][]int64, d, x, y int) {
		if m[d] == nil {
			m[d] = make([]int64, k)
		}
		m[d][(x-y+k)%k]++
	}
	checks := map[string]map[int][]int64{}
	for f := range checksums("a", g.set) {
		checks[f] = map[int][]int64{}
	}
	prev := ""
	across := make([]int64, k) // difference to the same position of the previous value
	c.Log("statistics of %s over %d characters", g.name, total)
	for done := 0; done < total; {
		var s string
		c.Call(g.name, func() error { s = g.f(); return nil })
		if len(s) == 0 {
			c.Violate([]string{"C19"}, "%s gives an empty string", g.name)
		}
		same := 0
		for i := 0; i < len(s); i++ {
			x := strings.IndexByte(g.set, s[i])
			if x < 0 {
				c.Violate([]string{"C19"}, "%s gives %q", g.name, s)
			}
			chars[x]++
			if i > 0 {
				pairs[strings.IndexByte(g.set, s[i-1])*k+x]++
			}
			if i < len(prev) {
				y := strings.IndexByte(g.set, prev[i])
				across[(x-y+k)%k]++
				if x == y {
					same++
				}
			}
			for _, d := range []int{2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 31, 32, 36, 40, 48, 62, 64} {
				if i >= d {
					bump(dist, d, x, strings.IndexByte(g.set, s[i-d]))
				}
			}
			if j := len(s) - 1 - i; j < i && j < 8 {
				bump(ends, j, x, strings.IndexByte(g.set, s[j]))
			}
			if i < 96 {
				if pos[i] == nil {
					pos[i] = make([]int64, k)
				}
				pos[i][x]++
			}
		}
		if len(prev) >= 30 && len(s) >= 30 && same > 14+len(s)/8 {
			c.Violate([]string{"C19"}, "successive values of %s agree in %d places: %q %q", g.name, same, prev, s)
		}
		// a check character: the last or the first one computed from others
		if n := len(s); n > 2 {
			x := strings.IndexByte(g.set, s[n-1])
			did := map[int]bool{}
			for _, m := range []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 16, n / 2, n - 2, n - 1} {
				if m < n && !did[m] {
					did[m] = true
					for f, y := range checksums(s[:m], g.set) {
						bump(checks[f], m, x, y)
						if m == n-1 {
							bump(checks[f], -1, x, y)
						}
					}
				}
			}
			x = strings.IndexByte(g.set, s[0])
			for f, y := range checksums(s[1:], g.set) {
				bump(checks[f], -2, x, y)
			}
		}
		first[strings.IndexByte(g.set, s[0])]++
		last[strings.IndexByte(g.set, s[len(s)-1])]++
		prev = s
		done += len(s)
	}
	c.EventN("characters_counted", int64(total))
	test := func(what string, counts []int64) {
		var n int64
		for _, x := range counts {
			n += x
		}
		if n < int64(8*len(counts)) {
			return
		}
		x, dof, bad := chi2(counts)
		c.Eval(g.name + "/" + what)
		c.Event("chi_square_tests")
		if what == "characters" {
			c.Sample("%s: chi-square of %d characters %.1f with %d degrees of freedom", g.name, n, x, dof)
		}
		if bad {
			c.Violate([]string{"C19"}, "%s: %s are not equally likely: chi-square %.1f with %d degrees of freedom over %d observations: %v", g.name, what, x, dof, n, head(fmt.Sprint(counts), 500))
		}
	}
	test("characters", chars)
	test("first characters", first)
	test("last characters", last)
	test("successive pairs", pairs)
	test("differences of successive values", across)
	for f, m := range checks {
		for d, v := range m {
			test(fmt.Sprintf("differences of a character and the %s of %d others", f, d), v)
		}
	}
	for d := 0; d <= 64; d++ {
		if dist[d] != nil {
			test(fmt.Sprintf("differences of characters %d apart", d), dist[d])
		}
		if ends[d] != nil {
			test(fmt.Sprintf("differences of the characters %d from both ends", d), ends[d])
		}
	}
	var ps []int
	for i := range pos {
		ps = append(ps, i)
	}
	sort.Ints(ps)
	for _, i := range ps {
		test(fmt.Sprintf("characters at position %d", i), pos[i])
	}
}

// ---- adversary -----------------------------------------------------------

// v1 reproduces the first outputs of math/rand's source for a seed without
// seeding all of it.
type v1Model struct {
	cooked [607]int64
	mul    [607 * 3]uint64 // powers of the seeding generator
}

var v1 *v1Model

const lcgP = 1<<31 - 1

func v1Get(c *Ctx) *v1Model {
	if v1 != nil {
		return v1
	}
	m := &v1Model{}
	const a = 48271
	x := uint64(1)
	for i := 0; i < 20; i++ {
		x = x * a % lcgP
	}
	for i := range m.mul {
		x = x * a % lcgP
		m.mul[i] = x
	}
	src := rand.NewSource(12345)
	v := reflect.ValueOf(src).Elem().FieldByName("vec")
	if !v.IsValid() || v.Len() != 607 {
		return nil
	}
	vec := (*[607]int64)(unsafe.Pointer(v.UnsafeAddr()))
	for i := range m.cooked {
		m.cooked[i] = vec[i] ^ m.u(seedOf(12345), i)
	}
	// check against the real one
	for _, s := range []int64{1, 99, -5, 1700000000123456789} {
		r := rand.NewSource(s)
		for k := 0; k < 5; k++ {
			if want := r.Int63(); m.out(seedOf(s), k) != want {
				return nil
			}
		}
	}
	v1 = m
	return m
}

func seedOf(s int64) uint64 {
	s %= lcgP
	if s < 0 {
		s += lcgP
	}
	if s == 0 {
		s = 89482311
	}
	return uint64(s)
}

func (m *v1Model) u(s uint64, i int) int64 {
	x := func(k int) int64 { return int64(s * m.mul[3*i+k] % lcgP) }
	return x(0)<<40 ^ x(1)<<20 ^ x(2)
}

// out is the k-th Int63 of the source with reduced seed s.
func (m *v1Model) out(s uint64, k int) int64 {
	f, t := 333-k, 606-k
	return int64(uint64((m.u(s, f)^m.cooked[f])+(m.u(s, t)^m.cooked[t])) & (1<<63 - 1))
}

// cracker looks for seeds reproducing a value.
type cracker struct {
	m   *v1Model
	s   string
	set string
	idx []int
	id  []byte // of a UUID
	n   int64
}

func newCracker(c *Ctx, s, set string) *cracker {
	k := &cracker{m: v1Get(c), s: s, set: set}
	if k.m == nil {
		c.Event("math_rand_model_unavailable")
		return nil
	}
	if set == "" {
		h := strings.ReplaceAll(s, "-", "")
		for i := 0; i+1 < len(h); i += 2 {
			var b byte
			fmt.Sscanf(h[i:i+2], "%02x", &b)
			k.id = append(k.id, b)
		}
		return k
	}
	for i := 0; i < len(s); i++ {
		k.idx = append(k.idx, strings.IndexByte(set, s[i]))
	}
	return k
}

// full verifies a candidate of the v1 source completely.
func (k *cracker) full(seed int64, off int) bool {
	n := len(k.set)
	for _, f := range []func(r *rand.Rand) int{
		func(r *rand.Rand) int { return r.Intn(n) },
		func(r *rand.Rand) int { return int(r.Int63() % int64(n)) },
		func(r *rand.Rand) int { return int(r.Int31()) % n },
		func(r *rand.Rand) int { return int(r.Uint32() % uint32(n)) },
	} {
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < off; i++ {
			f(r)
		}
		ok := true
		for i := 0; i < len(k.idx) && ok; i++ {
			ok = f(r) == k.idx[i]
		}
		if ok {
			return true
		}
	}
	return false
}

// try reports how the value can be reproduced from a seed.
func (k *cracker) try(seed int64) string {
	k.n++
	s := seedOf(seed)
	if k.id != nil {
		x := k.m.out(s, 0)
		if byte(x) == k.id[0] && byte(x>>8) == k.id[1] && byte(x>>16) == k.id[2] && byte(x>>24) == k.id[3] {
			// the search tries millions of seeds: all of the value must agree
			b := make([]byte, len(k.id))
			rand.New(rand.NewSource(seed)).Read(b)
			ok := len(b) == 16
			for i := 0; i < len(b) && ok; i++ {
				m := byte(0xff)
				switch i {
				case 6:
					m = 0x0f // version
				case 8:
					m = 0x3f // variant
				}
				ok = b[i]&m == k.id[i]&m
			}
			if ok {
				return fmt.Sprintf("math/rand seeded with %d", seed)
			}
		}
		return ""
	}
	n := int64(len(k.set))
	// the stream may have served one or two draws before
	o := [4]int64{k.m.out(s, 0), k.m.out(s, 1), k.m.out(s, 2), k.m.out(s, 3)}
	for off := 0; off < 3; off++ {
		hit := false
		a, b := o[off], o[off+1]
		i0, i1 := int64(k.idx[0]), int64(k.idx[1])
		if a>>32%n == i0 && b>>32%n == i1 || a%n == i0 && b%n == i1 || a>>31%n == i0 && b>>31%n == i1 {
			hit = true
		}
		if hit && k.full(seed, off) {
			return fmt.Sprintf("math/rand seeded with %d after %d draws", seed, off)
		}
	}
	return ""
}

// tryV2 looks at the generators of math/rand/v2.
func (k *cracker) tryV2(seed int64) string {
	if k.id != nil {
		return ""
	}
	n := len(k.set)
	u := uint64(seed)
	for j, p := range [][2]uint64{{u, u}, {u, 0}, {0, u}, {u, u >> 32}, {u, 1}, {u, u + 1}, {1, u}} {
		g := randv2.New(randv2.NewPCG(p[0], p[1]))
		ok := true
		for i := 0; i < len(k.idx) && ok; i++ {
			ok = g.IntN(n) == k.idx[i]
		}
		if ok {
			return fmt.Sprintf("math/rand/v2 PCG variant %d seeded with %d", j, seed)
		}
	}
	return ""
}

// window tries every clock value between two moments.
func (k *cracker) window(c *Ctx, from, to time.Time, pid int, v2 bool, limit int64) string {
	a, b := from.UnixNano(), to.UnixNano()
	if b-a > limit {
		c.Event("windows_shortened")
		a = b - limit
	}
	for s := a; s <= b; s++ {
		if x := k.try(s); x != "" {
			return x
		}
		if s&0xfffff == 0 {
			c.mark(fmt.Sprintf("search at %d", s))
		}
	}
	if v2 {
		for s := a; s <= b; s++ {
			if x := k.tryV2(s); x != "" {
				return x
			}
		}
	}
	coarse := func(s int64) string {
		for _, d := range []int64{s, s + int64(pid), s ^ int64(pid), s * int64(pid), s << 16, s<<32 | int64(pid)} {
			if x := k.try(d); x != "" {
				return x
			}
			if x := k.tryV2(d); x != "" {
				return x
			}
		}
		return ""
	}
	for s := from.UnixNano()/1000 - 2; s <= b/1000; s++ {
		if x := coarse(s); x != "" {
			return x
		}
	}
	for s := from.UnixNano()/1e6 - 2; s <= b/1e6; s++ {
		if x := coarse(s); x != "" {
			return x
		}
	}
	for s := from.Unix() - 2; s <= to.Unix(); s++ {
		if x := coarse(s); x != "" {
			return x
		}
	}
	for s := int64(-2); s < 2000; s++ {
		if x := coarse(s); x != "" {
			return x
		}
	}
	for _, s := range []int64{int64(pid), 0x5eed, 12345, 123456789, 0xdeadbeef} {
		if x := coarse(s); x != "" {
			return x
		}
	}
	return ""
}

// c19Calls: a generator seeded anew by each call.
func c19Calls(c *Ctx) {
	for i := 0; i < 24; i++ {
		var s, set string
		var kind string
		t0 := time.Now()
		switch i % 4 {
		case 0:
			s, set, kind = identity.GetRandomString(40), alnum62, "GetRandomString"
		case 1:
			s, set, kind = identity.GetRandomStringFromRange(72, 96), alnum62, "GetRandomStringFromRange"
		case 2:
			s, set, kind = identity.NewRandomString(32), "abcdefghijklmnopqrstuvwxyz0123456789", "NewRandomString"
		case 3:
			s, set, kind = identity.NewID(), "", "NewID"
		}
		t1 := time.Now()
		k := newCracker(c, s, set)
		if k == nil {
			return
		}
		c.Log("%s between %d and %d: %q", kind, t0.UnixNano(), t1.UnixNano(), s)
		x := k.window(c, t0, t1, os.Getpid(), true, 400000)
		c.EventN("seeds_tried", k.n)
		c.Eval("call/" + kind)
		if x != "" {
			c.Violate([]string{"C19"}, "%s gave %q, which is reproduced by %s (time of the call)", kind, s, x)
		}
		c.note("string", s)
	}
}

type randomOut struct {
	Values []string
	T      int64
	Pid    int
}

// randomChild generates values right after its start.
func randomChild(args []string) {
	var o randomOut
	o.Pid = os.Getpid()
	add := func(s string) {
		o.Values = append(o.Values, s)
		if o.T == 0 {
			o.T = time.Now().UnixNano()
		}
	}
	switch args[0] {
	case "string":
		add(identity.GetRandomString(40))
	case "range":
		add(identity.GetRandomStringFromRange(72, 96))
	case "random":
		add(identity.NewRandomString(32))
	case "id":
		add(identity.NewID())
	case "api":
		db, err := openDB(args[1])
		if err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(3)
		}
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.Key.Usage, q.Key.Comment = args[2], args[3], "api", "x"
		if err := db.AddAPIKey(q); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(3)
		}
		s, _ := q.Response.Payload.(string)
		add(s)
	}
	for i := 0; i < 20; i++ {
		add(identity.GetRandomString(40))
		add(identity.NewRandomString(32))
		add(identity.NewID())
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(b)
}

// c19Child: a generator seeded at the start of the process.
func c19Child(c *Ctx) {
	mode := []string{"string", "range", "random", "id", "api"}[(c.Case/6)%5]
	path := filepath.Join(c.Dir, "db.json")
	if mode == "api" {
		db, err := openDB(path)
		if err != nil {
			c.Violate([]string{"C05"}, "%v", err)
		}
		q := requests.NewRequest()
		q.User.Username, q.User.Email, q.User.Password = "jsmith", "j@x.example", "secret-password"
		if err := db.AddUser(q); err != nil {
			c.Violate([]string{"C03"}, "%v", err)
		}
	}
	self, _ := os.Executable()
	all := map[string]bool{}
	for k := 0; k < 3; k++ {
		cmd := exec.Command(self, "child", "random", mode, path, "jsmith", "j@x.example")
		cmd.Env = os.Environ()
		seeded := k > 0
		if !seeded {
			// as in programs of modules for Go releases before 1.20
			cmd.Env = append(cmd.Env, "GODEBUG=randautoseed=0")
		}
		t0 := time.Now()
		out, err := cmd.Output()
		if err != nil {
			c.Harness("child: %v %s", err, out)
		}
		var o randomOut
		if err := json.Unmarshal(out, &o); err != nil {
			c.Harness("child: %v %s", err, out)
		}
		c.Log("process started at %d (automatic seeding %v): %s", t0.UnixNano(), seeded, head(string(out), 500))
		for _, s := range o.Values {
			if all[s] {
				c.Violate([]string{"C19"}, "%q was generated twice by processes (%s)", s, mode)
			}
			all[s] = true
			c.note("process", s)
		}
		if k == 2 {
			continue
		}
		set := alnum62
		switch mode {
		case "random":
			set = "abcdefghijklmnopqrstuvwxyz0123456789"
		case "id":
			set = ""
		}
		cr := newCracker(c, o.Values[0], set)
		if cr == nil {
			return
		}
		limit := int64(40e6)
		if c.Thorough {
			limit = 150e6
		}
		x := cr.window(c, t0, time.Unix(0, o.T), o.Pid, false, limit)
		c.EventN("seeds_tried", cr.n)
		c.Event("processes_attacked")
		c.Eval(fmt.Sprintf("process/%s/%v", mode, seeded))
		if x != "" {
			c.Violate([]string{"C19"}, "the first value %q of a process (%s) is reproduced by %s (time of its start)", o.Values[0], mode, x)
		}
	}
}

func c19Concurrent(c *Ctx) {
	const g, n = 8, 1500
	out := make([][]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	mode := (c.Case / 6) % 4
	c.Log("concurrent generation, mode %d", mode)
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < n; k++ {
				var s string
				switch (mode + k*(mode%2)) % 4 {
				case 0:
					s = identity.GetRandomString(40)
				case 1:
					s = identity.NewRandomString(32)
				case 2:
					s = identity.NewID()
				case 3:
					s = identity.GetRandomStringFromRange(24, 26)
				}
				out[i] = append(out[i], s)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	seen := map[string]bool{}
	for _, l := range out {
		for _, s := range l {
			if seen[s] {
				c.Violate([]string{"C19"}, "%q was generated twice by concurrent goroutines", s)
			}
			seen[s] = true
		}
	}
	c.EventN("concurrent_values", int64(len(seen)))
	c.Eval(fmt.Sprintf("concurrent/%d", mode))
}

func c19World(c *Ctx) {
	w := newWorld(c, worldOpts{checkEvery: 20, weights: mix(map[string]int{"graft": 0, "adduser": 12, "addapi": 14, "addkey": 10, "addtotp": 8, "reopen": 3})})
	w.maxUsers = 12
	w.seedUsers(2)
	w.history(25)
	n := 0
	for _, u := range w.users {
		n += 1 + len(u.api) + len(u.keys) + len(u.mfa)
	}
	c.EventN("ids_in_databases", int64(n))
	c.Eval(fmt.Sprintf("world/%d", n/10))
	var what, vals []string
	for _, u := range w.users {
		what, vals = append(what, "ID of user "+u.username), append(vals, u.id)
		for _, k := range u.api {
			what, vals = append(what, "ID of API key "+k.comment), append(vals, k.id)
			what, vals = append(what, "API key "+k.comment), append(vals, k.plain)
		}
		for _, k := range u.keys {
			if strings.HasPrefix(k.canon, "pgp:") {
				continue // the key's own ID
			}
			what, vals = append(what, "ID of public key "+k.canon), append(vals, k.id)
		}
		for _, k := range u.mfa {
			what, vals = append(what, "ID of token "+k.comment), append(vals, k.id)
			if k.typ == "totp" {
				what, vals = append(what, "secret of token "+k.comment), append(vals, k.secret)
			}
		}
	}
	c.unrelated(what, vals)
}

// unrelated finds generated values that contain parts of other values, which
// random values do not.
func (c *Ctx) unrelated(what, vals []string) {
	const n = 10
	seen := map[string]int{}
	for i, v := range vals {
		given := strings.HasPrefix(what[i], "secret")
		for j := 0; j+n <= len(v); j++ {
			g := v[j : j+n]
			k, ok := seen[g]
			if !ok {
				seen[g] = i
				continue
			}
			if k == i || given && strings.HasPrefix(what[k], "secret") {
				continue
			}
			c.Violate([]string{"C19"}, "%s (%q) contains %q of %s (%q)", what[i], v, g, what[k], vals[k])
		}
	}
	c.EventN("substrings_compared", int64(len(seen)))
}
