// Package sym implements a symbolic prime-order group: the free module over
// Z_q with one basis vector per label. It satisfies the repository's
// group.Group and group.Element interfaces, so the real provers and verifiers
// run on it unchanged, and every element they publish can be read back as its
// exact linear form over the generators.
//
// A group can be switched into recording mode, in which equality and identity
// tests do not compare: they record the linear form that the code requires to
// vanish and answer as told. This yields the exact set of equations a verifier
// checks, for whatever code evaluates them.
package sym

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/group"
)

// Group is a symbolic group of prime order q.
type Group struct {
	name string
	q    *big.Int
	p    *big.Int

	mu  sync.Mutex
	rec *Recorder
}

// Recorder collects the residuals of comparisons.
type Recorder struct {
	Residuals []map[string]*big.Int
	// FalseAt is the index of the recorded comparison answered false (-1: none).
	FalseAt int
}

// Elem is a linear form over labels.
type Elem struct {
	g *Group
	c map[string]*big.Int
	// alias, when set, is what String() returns: the element then hashes like
	// another one while standing for a fresh unknown.
	alias string
	// twin is the element it encodes like.
	twin *Elem
}

// New creates a symbolic group.
func New(name string, q *big.Int) *Group {
	return &Group{name: name, q: new(big.Int).Set(q), p: new(big.Int).Set(q)}
}

// Base is the label of the generator.
const Base = "G"

func (g *Group) Name() string                 { return g.name }
func (g *Group) MarshalJSON() ([]byte, error) { return json.Marshal(&group.GroupId{Name: g.name}) }
func (g *Group) P() *big.Int                  { return g.p }
func (g *Group) N() *big.Int                  { return g.q }

func (g *Group) Element() group.Element   { return &Elem{g: g, c: map[string]*big.Int{}} }
func (g *Group) Identity() group.Element  { return &Elem{g: g, c: map[string]*big.Int{}} }
func (g *Group) Generator() group.Element { return g.Label(Base) }
func (g *Group) Random() group.Element {
	r, _ := rand.Int(rand.Reader, g.q)
	return g.Element().BaseScale(r)
}

// Label returns the basis element with the given label.
func (g *Group) Label(l string) *Elem {
	return &Elem{g: g, c: map[string]*big.Int{l: big.NewInt(1)}}
}

// Fresh returns a new unknown that hashes like e.
func (g *Group) Fresh(l string, e group.Element) *Elem {
	return &Elem{g: g, c: map[string]*big.Int{l: big.NewInt(1)}, alias: e.String(), twin: e.(*Elem).origin()}
}

func (e *Elem) origin() *Elem {
	if e.twin != nil {
		return e.twin
	}
	return e
}

// Fake returns an element that hashes like the given string.
func (g *Group) Fake(str string) *Elem {
	l := "fake:" + str
	return &Elem{g: g, c: map[string]*big.Int{l: big.NewInt(1)}, alias: str, twin: g.Label(l)}
}

// Make builds an element from a form.
func (g *Group) Make(form map[string]*big.Int) *Elem {
	e := &Elem{g: g, c: map[string]*big.Int{}}
	for l, v := range form {
		e.add(l, v)
	}
	return e
}

// Record starts recording comparisons.
func (g *Group) Record(falseAt int) *Recorder {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.rec = &Recorder{FalseAt: falseAt}
	return g.rec
}

// Stop ends recording.
func (g *Group) Stop() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.rec = nil
}

func (e *Elem) add(l string, v *big.Int) {
	n := new(big.Int)
	if o, ok := e.c[l]; ok {
		n.Add(o, v)
	} else {
		n.Set(v)
	}
	n.Mod(n, e.g.q)
	if n.Sign() == 0 {
		delete(e.c, l)
	} else {
		e.c[l] = n
	}
}

// Form returns a copy of the linear form.
func (e *Elem) Form() map[string]*big.Int {
	r := map[string]*big.Int{}
	for l, v := range e.c {
		r[l] = new(big.Int).Set(v)
	}
	return r
}

// Coef returns the coefficient of a label.
func (e *Elem) Coef(l string) *big.Int {
	if v, ok := e.c[l]; ok {
		return new(big.Int).Set(v)
	}
	return new(big.Int)
}

func (e *Elem) check(a group.Element) *Elem {
	x, ok := a.(*Elem)
	if !ok {
		panic("incompatible group element type")
	}
	if x.g.name != e.g.name {
		panic("incompatible groups")
	}
	return x
}

func (e *Elem) set(r *Elem) group.Element {
	e.c, e.alias, e.twin = r.c, "", nil
	return e
}

func (e *Elem) Add(a, b group.Element) group.Element {
	x, y := e.check(a), e.check(b)
	r := e.g.Make(x.c)
	for l, v := range y.c {
		r.add(l, v)
	}
	return e.set(r)
}

func (e *Elem) Subtract(a, b group.Element) group.Element {
	t := e.g.Identity()
	t.Negate(b)
	return e.Add(a, t)
}

func (e *Elem) Negate(a group.Element) group.Element { return e.Scale(a, big.NewInt(-1)) }

func (e *Elem) Scale(a group.Element, s *big.Int) group.Element {
	x := e.check(a)
	k := new(big.Int).Mod(s, e.g.q)
	r := &Elem{g: e.g, c: make(map[string]*big.Int, len(x.c))}
	if k.Sign() != 0 {
		for l, v := range x.c {
			n := new(big.Int).Mul(v, k)
			n.Mod(n, e.g.q)
			if n.Sign() != 0 {
				r.c[l] = n
			}
		}
	}
	return e.set(r)
}

func (e *Elem) BaseScale(s *big.Int) group.Element { return e.Scale(e.g.Generator(), s) }

func (e *Elem) Set(a group.Element) group.Element {
	x := e.check(a)
	al, tw := x.alias, x.twin
	e.set(e.g.Make(x.c))
	e.alias, e.twin = al, tw
	return e
}

func (e *Elem) SetBytes(b []byte) group.Element {
	_ = e.UnmarshalBinary(b)
	return e
}

func (e *Elem) MapToGroup(s string) (group.Element, error) {
	return e.set(e.g.Label("M:" + s)), nil
}

func (e *Elem) answer(res *Elem) bool {
	e.g.mu.Lock()
	defer e.g.mu.Unlock()
	rec := e.g.rec
	if rec == nil {
		return len(res.c) == 0
	}
	if len(res.c) == 0 {
		return true // compares equal whatever the unknowns are
	}
	if len(res.c) == 1 {
		return false // an unknown on its own: not an equation, answer truthfully
	}
	rec.Residuals = append(rec.Residuals, res.Form())
	return rec.FalseAt != len(rec.Residuals)-1
}

func (e *Elem) IsEqual(b group.Element) bool {
	x := e.check(b)
	r := e.g.Make(e.c)
	for l, v := range x.c {
		r.add(l, new(big.Int).Neg(v))
	}
	return e.answer(r)
}

func (e *Elem) IsIdentity() bool { return e.answer(e) }

func (e *Elem) GroupOrder() *big.Int { return e.g.q }
func (e *Elem) FieldOrder() *big.Int { return e.g.p }

func (e *Elem) canonical() string {
	ls := make([]string, 0, len(e.c))
	for l := range e.c {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	var sb strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&sb, "%d:%s=%s;", len(l), l, e.c[l].String())
	}
	return sb.String()
}

func (e *Elem) String() string {
	if e.alias != "" {
		return e.alias
	}
	h := sha256.Sum256([]byte(e.g.name + "|" + e.canonical()))
	return hex.EncodeToString(h[:])
}

func (e *Elem) MarshalBinary() ([]byte, error) { return e.MarshalJSON() }

func (e *Elem) UnmarshalBinary(b []byte) error { return e.UnmarshalJSON(b) }

type elemJSON struct {
	Sym *map[string]*big.Int `json:"sym"`
}

func (e *Elem) MarshalJSON() ([]byte, error) {
	if e.twin != nil {
		return e.twin.MarshalJSON()
	}
	m := e.c
	return json.Marshal(elemJSON{&m})
}

func (e *Elem) UnmarshalJSON(b []byte) error {
	var j elemJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	if j.Sym == nil {
		return errors.New("sym: missing form")
	}
	r := e.g.Element().(*Elem)
	for l, v := range *j.Sym {
		if v == nil || v.Sign() <= 0 || v.Cmp(e.g.q) >= 0 {
			return errors.New("sym: bad coefficient")
		}
		r.add(l, v)
	}
	e.set(r)
	return nil
}
