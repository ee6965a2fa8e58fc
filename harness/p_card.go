package main

import (
	"encoding/json"
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	identity "github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/pkg/errors"
)

// C32. Payment cards against a model of the tables of issuers and
// associations.

func init() {
	register(&Prop{ID: "C32", Level: "exploration",
		Rule:  "distinct (kind of lookup, form of the name, outcome, what the card held before) whose verdict and effect on the card, on other cards and on the tables were compared with a model; cards encoded and decoded again",
		Cases: n2(4000, 60000), Run: runC32})
}

type cardModel struct {
	number, code   string
	issued, expiry time.Time
	issuer         int // index of the table, -1 without
	assoc          int
}

// well-known associations, which every release supports
var knownAssociations = []string{"American Express", "Diners Club", "Discover", "Mastercard", "Visa"}

func runC32(c *Ctx) {
	r := c.R
	word := func() string {
		return pick(r, "Citi", "Capital One", "Banque Générale", "Ж банк", "chase", "HSBC", "Bank ß", "A", "First & Last", "Visa", "discover") + pick(r, "", "", " Bank", "group", fmt.Sprint(r.Intn(5)))
	}
	// the issuers are supplied by the program
	var table []*identity.CreditCardIssuer
	for i := r.Intn(7); i > 0; i-- {
		x := identity.NewCreditCardIssuer()
		if !reflect.DeepEqual(*x, identity.CreditCardIssuer{}) {
			c.Violate([]string{"C32"}, "NewCreditCardIssuer gives %+v", *x)
		}
		x.Name = word()
		for j := r.Intn(4); j > 0; j-- {
			x.Aliases = append(x.Aliases, word())
		}
		table = append(table, x)
	}
	was := identity.CreditCardIssuers
	identity.CreditCardIssuers = table
	defer func() { identity.CreditCardIssuers = was }()
	text := func() string {
		a, _ := json.Marshal(identity.CreditCardIssuers)
		b, _ := json.Marshal(identity.CreditCardAssociations)
		return string(a) + string(b)
	}
	before := text()
	assocs := map[string]int{}
	for i, a := range identity.CreditCardAssociations {
		if _, dup := assocs[a.Name]; !dup {
			assocs[a.Name] = i
		}
	}
	for _, n := range knownAssociations {
		if _, ok := assocs[n]; !ok {
			c.Violate([]string{"C32"}, "the association %q is not supported", n)
		}
	}
	findIssuer := func(s string) int {
		for i, x := range table {
			for _, n := range append([]string{x.Name}, x.Aliases...) {
				if s == n || s == strings.ToLower(n) {
					return i
				}
			}
		}
		return -1
	}
	vary := func(s string) string {
		switch r.Intn(8) {
		case 0, 1, 2:
			return s
		case 3, 4:
			return strings.ToLower(s)
		case 5:
			return strings.ToUpper(s)
		case 6:
			return pick(r, s+" ", " "+s, s+"s", s+"x")
		}
		if len(s) > 1 {
			return pick(r, s[:len(s)-1], s[1:], strings.Title(strings.ToLower(s)), strings.ReplaceAll(s, " ", ""))
		}
		return ""
	}
	name := func() string {
		switch x := r.Intn(8); {
		case x < 3 && len(table) > 0:
			i := table[r.Intn(len(table))]
			l := append([]string{i.Name}, i.Aliases...)
			return vary(l[r.Intn(len(l))])
		case x < 6:
			a := identity.CreditCardAssociations[r.Intn(len(identity.CreditCardAssociations))]
			l := append([]string{a.Name, a.Name}, a.Aliases...)
			return vary(l[r.Intn(len(l))])
		case x == 6:
			return word()
		}
		return pick(r, "", " ", "visa\x00", "%s", "Visa/Mastercard", strings.Repeat("a", 3000), "CID", "NNN")
	}
	n := 1 + r.Intn(4)
	cards := make([]*identity.CreditCard, n)
	models := make([]cardModel, n)
	for i := range cards {
		cards[i] = identity.NewCreditCard()
		if !reflect.DeepEqual(*cards[i], identity.CreditCard{}) {
			c.Violate([]string{"C32"}, "NewCreditCard gives %+v", *cards[i])
		}
		models[i] = cardModel{issuer: -1, assoc: -1}
		if r.Intn(3) > 0 {
			m := &models[i]
			m.number, m.code = randFrom(r, "0123456789 ", 19), randFrom(r, "0123456789", 3)
			m.issued = time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1000))).UTC()
			m.expiry = m.issued.Add(time.Duration(r.Intn(100000)) * time.Hour)
			cards[i].Number, cards[i].Code, cards[i].IssuedAt, cards[i].ExpiresAt = m.number, m.code, m.issued, m.expiry
		}
	}
	check := func(what string) {
		for i, k := range cards {
			m := models[i]
			if k.Number != m.number || k.Code != m.code || !k.IssuedAt.Equal(m.issued) || !k.ExpiresAt.Equal(m.expiry) {
				c.Violate([]string{"C32"}, "after %s card %d is %+v, expected %+v", what, i, *k, m)
			}
			switch {
			case m.issuer < 0 && k.Issuer != nil:
				c.Violate([]string{"C32"}, "after %s card %d has issuer %+v, expected none", what, i, *k.Issuer)
			case m.issuer >= 0 && (k.Issuer == nil || !reflect.DeepEqual(*k.Issuer, *table[m.issuer])):
				c.Violate([]string{"C32"}, "after %s card %d has issuer %+v, expected %+v", what, i, k.Issuer, *table[m.issuer])
			case m.assoc < 0 && k.Association != nil:
				c.Violate([]string{"C32"}, "after %s card %d has association %+v, expected none", what, i, *k.Association)
			case m.assoc >= 0 && (k.Association == nil || !reflect.DeepEqual(*k.Association, *identity.CreditCardAssociations[m.assoc])):
				c.Violate([]string{"C32"}, "after %s card %d has association %+v, expected %+v", what, i, k.Association, *identity.CreditCardAssociations[m.assoc])
			}
		}
		if t := text(); t != before {
			c.Violate([]string{"C32"}, "%s changed the tables: %s", what, diffJSON(before, t))
		}
	}
	verdict := func(what string, err error, want bool, kind errors.StandardError, s string) {
		if (err == nil) != want {
			c.Violate([]string{"C32"}, "%s gives error %v, expected success: %v", what, err, want)
		}
		if err == nil {
			return
		}
		if !stderrors.Is(err, kind) && !strings.HasPrefix(err.Error(), strings.Split(string(kind), "%")[0]) {
			c.Violate([]string{"C32", "C25"}, "%s: error %q is not of the documented kind", what, err)
		}
		if strings.Contains(err.Error(), "%!") || !strings.Contains(err.Error(), s) {
			c.Violate([]string{"C32", "C25"}, "%s: error %q does not name the value", what, err)
		}
	}
	op := func(i int) {
		k, m, s := cards[i], &models[i], name()
		held := fmt.Sprintf("%v/%v", m.issuer >= 0, m.assoc >= 0)
		var what string
		switch r.Intn(5) {
		case 0, 1:
			what = fmt.Sprintf("AddIssuer(%q)", head(s, 60))
			var err error
			c.Call("AddIssuer", func() error { err = k.AddIssuer(s); return err })
			x := findIssuer(s)
			verdict(what, err, x >= 0, errors.ErrCreditCardUnsupportedIssuer, s)
			if x >= 0 {
				m.issuer = x
			}
			c.Eval(fmt.Sprintf("issuer/%v/%s/%d/%s", x >= 0, held, len(table), head(s, 24)))
		case 2, 3:
			what = fmt.Sprintf("AddAssociation(%q)", head(s, 60))
			var err error
			c.Call("AddAssociation", func() error { err = k.AddAssociation(s); return err })
			x, ok := assocs[s]
			verdict(what, err, ok, errors.ErrCreditCardUnsupportedAssociation, s)
			if ok {
				m.assoc = x
			}
			c.Eval(fmt.Sprintf("association/%v/%s/%s", ok, held, head(s, 24)))
		default:
			what = "encoding and decoding"
			b, err := json.Marshal(k)
			if err != nil {
				c.Violate([]string{"C32"}, "a card cannot be encoded: %v", err)
			}
			d := identity.NewCreditCard()
			if err := json.Unmarshal(b, d); err != nil {
				c.Violate([]string{"C32"}, "a card cannot be decoded: %v: %s", err, b)
			}
			if b2, _ := json.Marshal(d); string(b) != string(b2) {
				c.Violate([]string{"C32"}, "a card changes when encoded: %s", diffJSON(string(b), string(b2)))
			}
			cards[i] = d
			c.Eval("encoded/" + held)
		}
		c.Log("card %d: %s", i, what)
		c.Event("card_operations")
		check(what)
	}
	for j := 0; j < 30; j++ {
		op(r.Intn(n))
	}
	// cards of several goroutines share nothing but the tables
	if c.Case%10 == 0 {
		var wg sync.WaitGroup
		bad := make([]string, 4)
		for g := range bad {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				a := identity.CreditCardAssociations[g%len(identity.CreditCardAssociations)]
				k := identity.NewCreditCard()
				for i := 0; i < 200; i++ {
					if err := k.AddAssociation(a.Name); err != nil || k.Association == nil || k.Association.Name != a.Name {
						bad[g] = fmt.Sprintf("AddAssociation(%q) in parallel: %v, %+v", a.Name, err, k.Association)
					}
					if len(table) > 0 {
						x := table[g%len(table)]
						y := table[findIssuer(x.Name)]
						if err := k.AddIssuer(x.Name); err != nil || k.Issuer == nil || !reflect.DeepEqual(*k.Issuer, *y) {
							bad[g] = fmt.Sprintf("AddIssuer(%q) in parallel: %v, %+v", x.Name, err, k.Issuer)
						}
					}
				}
			}(g)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Violate([]string{"C32"}, "%s", b)
			}
		}
		check("parallel use")
		c.Event("parallel_runs")
	}
	if c.Case < 3 {
		c.Sample("%s", head(strings.Join(c.trace, " | "), 2000))
	}
}
