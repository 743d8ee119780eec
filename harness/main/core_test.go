package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/sym"
)

// ---------------------------------------------------------------- randomness

// stream is a deterministic byte stream (SHA-256 in counter mode). It replaces
// crypto/rand.Reader so that a run is a function of VERIF_SEED.
type vfStream struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
}

func vfNewStream(label string) *vfStream {
	return &vfStream{key: sha256.Sum256([]byte(label))}
}

func (s *vfStream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		if len(s.buf) == 0 {
			var b [40]byte
			copy(b[:], s.key[:])
			binary.BigEndian.PutUint64(b[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(b[:])
			s.buf = h[:]
		}
		p[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(p), nil
}

// rng is the harness's own source, independent of what the code consumes.
type vfRng struct{ s *vfStream }

func (r *vfRng) big(max *big.Int) *big.Int {
	v, err := crand.Int(r.s, max)
	if err != nil {
		panic(err)
	}
	return v
}

func (r *vfRng) n(max int) int { return int(r.big(big.NewInt(int64(max))).Int64()) }

func (r *vfRng) bits(b int) *big.Int { return r.big(new(big.Int).Lsh(big.NewInt(1), uint(b))) }

var (
	vfSeed     = int64(1)
	vfThorough = false
	vfOutDir   = "."
	vfInDir    = ""
)

func vfNewRng(label string) *vfRng {
	return &vfRng{vfNewStream(fmt.Sprintf("harness/%d/%s", vfSeed, label))}
}

// pick chooses between the quick and the thorough amount.
func vfPick(quick, deep int) int {
	if vfThorough {
		return deep
	}
	return quick
}

// ---------------------------------------------------------------- trace files

type vfTrace struct {
	f   *os.File
	w   *bufio.Writer
	mu  sync.Mutex
	n   int
	enc *json.Encoder
}

func vfNewTrace(name string) *vfTrace {
	f, err := os.Create(vfOutDir + "/" + name + ".ndjson")
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	return &vfTrace{f: f, w: w, enc: json.NewEncoder(w)}
}

type vfEv map[string]any

func (t *vfTrace) log(e vfEv) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if err := t.enc.Encode(e); err != nil {
		panic(err)
	}
	t.n++
}

func (t *vfTrace) close() {
	t.w.Flush()
	t.f.Close()
}

var vfRealStdout *os.File

func vfNote(format string, a ...any) { fmt.Fprintf(os.Stderr, "note: "+format+"\n", a...) }

// guard runs f and reports whether it panicked.
func vfGuard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 2048)
			buf = buf[:runtime.Stack(buf, false)]
			msg = fmt.Sprint("panic: ", r)
			if os.Getenv("VERIF_DEBUG") != "" {
				vfNote("%s\n%s", msg, buf)
			}
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------- groups

func vfMustHex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("hex")
	}
	return v
}

var (
	// Orders of the symbolic groups: 256 bits for the commitment group, a
	// larger prime for the ElGamal group. Both are 3 mod 4.
	vfEcOrder = vfMustHex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
	vfSymQ    *big.Int
	vfSymQFF  *big.Int
)

func init() {
	vfSymQ = vfPrime3mod4(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1<<20)))
	vfSymQFF = vfPrime3mod4(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 320), big.NewInt(1<<30)))
}

func vfPrime3mod4(from *big.Int) *big.Int {
	p := new(big.Int).Set(from)
	for !(p.Bit(0) == 1 && p.Bit(1) == 1) {
		p.Sub(p, big.NewInt(1))
	}
	for !p.ProbablyPrime(32) {
		p.Sub(p, big.NewInt(4))
	}
	return p
}

func vfRealGroups() []group.Group {
	return []group.Group{group.SecP256k1(), group.P256(), group.P384(), group.Ristretto255()}
}

// pedersenParams assembles public parameters like setup() does, for any pair
// of groups and any range.
func vfMakeParams(ec, ff group.Group, pk group.Element, n uint, bx uint8, bc uint16, lo, hi uint16) (PublicParameters, error) {
	var pp PublicParameters
	bp, err := bulletproofs.Setup(int64(1)<<n, ec)
	if err != nil {
		return pp, err
	}
	var f, c voteproof.GroupParameters
	f.I, f.F, f.N, f.G, f.H = ff, ff.P(), ff.N(), ff.Generator(), pk
	c.I, c.F, c.N, c.G, c.H = ec, ec.P(), ec.N(), ec.Generator(), bp.H
	rp, err := voteproof.Setup(bx, bc, uint16(c.N.BitLen()), lo, hi, voteproof.AlgebraicParameters{GFF: f, GEC: c})
	if err != nil {
		return pp, err
	}
	pp.FFGroupParams, pp.ECGroupParams, pp.EGPK = f, c, pk
	pp.candidateMin, pp.candidateMax = lo, hi
	pp.BPParams, pp.RPParams = bp, rp
	return pp, nil
}

// symWorld is an election over symbolic groups.
type vfSymWorld struct {
	ec, ff *sym.Group
	pp     PublicParameters
}

func vfNewSymWorld(n uint, bx uint8, bc uint16, lo, hi uint16) *vfSymWorld {
	w := &vfSymWorld{ec: sym.New("SymEC", vfSymQ), ff: sym.New("SymFF", vfSymQFF)}
	pp, err := vfMakeParams(w.ec, w.ff, w.ff.Label("PK"), n, bx, bc, lo, hi)
	if err != nil {
		panic(err)
	}
	w.pp = pp
	return w
}

// ---------------------------------------------------------------- forms

type vfForm map[string]*big.Int

func vfFormOf(e group.Element) vfForm {
	if e == nil {
		return nil
	}
	return vfForm(e.(*sym.Elem).Form())
}

// names translates the labels of parameter elements to their roles.
type vfNames map[string]string

func (nm vfNames) bind(e group.Element, role string) {
	f := vfFormOf(e)
	if len(f) != 1 {
		return
	}
	for l := range f {
		if _, dup := nm[l]; !dup {
			nm[l] = role
		}
	}
}

func (nm vfNames) out(f map[string]*big.Int) map[string]string {
	r := map[string]string{}
	for l, v := range f {
		if role, ok := nm[l]; ok {
			l = role
		}
		r[l] = v.String()
	}
	return r
}

func vfBpNames(params bulletproofs.BulletProofSetupParams, u group.Element) vfNames {
	nm := vfNames{}
	nm.bind(params.G, "G")
	nm.bind(params.H, "H")
	for i := range params.Gg {
		nm.bind(params.Gg[i], "g"+strconv.Itoa(i))
	}
	for i := range params.Hh {
		nm.bind(params.Hh[i], "h"+strconv.Itoa(i))
	}
	if u != nil {
		nm.bind(u, "U")
	}
	return nm
}

func vfStrs(v []*big.Int) []string {
	r := make([]string, len(v))
	for i := range v {
		r[i] = v[i].String()
	}
	return r
}

// ---------------------------------------------------------------- dispatch

var vfSuites = map[string]func(){}

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			vfSeed = v
		}
	}
	vfThorough = os.Getenv("VERIF_TIER") == "thorough"
	if d := os.Getenv("VERIF_OUT"); d != "" {
		vfOutDir = d
	}
	vfInDir = os.Getenv("VERIF_IN")
	vfRealStdout = os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null // the code under test prints progress lines
	name := os.Getenv("VERIF_SUITE")
	f, ok := vfSuites[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown suite", name)
		os.Exit(2)
	}
	crand.Reader = vfNewStream(fmt.Sprintf("code/%d/%s/%s", vfSeed, name, os.Getenv("VERIF_SALT")))
	f()
	os.Exit(0)
}

// reseed makes what follows independent of what ran before.
func vfReseed(label string) { crand.Reader = vfNewStream(fmt.Sprintf("code/%d/%s", vfSeed, label)) }

// parallel runs n jobs on all cores.
func vfParallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func vfReadLines(path string, f func(line []byte)) {
	file, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer file.Close()
	rd := bufio.NewReaderSize(file, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 {
			f(line)
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
	}
}
