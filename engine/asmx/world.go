package asmx

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// AtomInfo says what is known about an atom.
type AtomInfo struct {
	Bool     bool // 0 or 1
	R63      bool // a signed value of at most 63 bits
	Ptr      bool // the address of a managed object (its payload base) or null
	Lo, Hi   int64
	HasRange bool
	Align    uint // known number of low zero bits
}

// World shares atoms, memory contents and branch decisions between the reference semantics and the abstract machine.
type World struct {
	fixed  map[string]bool
	nonNeg map[string]bool
	Atoms  map[string]*AtomInfo
	kinds  map[string]string // memory content kind by address key
	prefix []int
	Trace  []decision
	known  map[string]int
	halfOf map[string]Poly // sar1 atoms and their argument
	Terms  map[string]Term // comparison and operation atoms
	Facts  []Poly          // expressions known to be at least zero
	Casts  bool            // words of unknown kind may be references
	Lib    bool            // evaluating library source: shifts by constants are exact
}

// Term is an operation an atom stands for.
type Term struct {
	Op   string
	Args []Poly
}

// lowBits gives the low k bits of p when they are known.
func (w *World) lowBits(p Poly) (k uint, low int64) {
	k = 63
	for m, c := range p.t {
		if m == "" {
			continue
		}
		tz := uint(bits.TrailingZeros64(c))
		for _, a := range strings.Split(m, "*") {
			if i, ok := w.Atoms[a]; ok {
				tz += i.Align
			}
		}
		if tz < k {
			k = tz
		}
	}
	return k, p.ConstPart() & (1<<k - 1)
}

// BigBounds is the mathematical interval of p's value before wrapping.
func (w *World) BigBounds(p Poly) (l, h *big.Int, ok bool) {
	l, h = new(big.Int), new(big.Int)
	for m, c := range p.t {
		cc := big.NewInt(int64(c))
		if m == "" {
			l.Add(l, cc)
			h.Add(h, cc)
			continue
		}
		i, ok := w.Atoms[m]
		if !ok {
			return nil, nil, false
		}
		a, b := i.Lo, i.Hi
		if i.Bool {
			a, b = 0, 1
		} else if !i.HasRange {
			return nil, nil, false
		}
		x, y := new(big.Int).Mul(cc, big.NewInt(a)), new(big.Int).Mul(cc, big.NewInt(b))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		l.Add(l, x)
		h.Add(h, y)
	}
	return l, h, true
}

// bounds gives the interval of p, over the signed 64-bit words, when its atoms have ranges and no sum overflows.
func (w *World) bounds(p Poly) (lo, hi int64, ok bool) {
	l, h, ok := w.BigBounds(p)
	if !ok {
		return 0, 0, false
	}
	if !l.IsInt64() || !h.IsInt64() {
		return 0, 0, false
	}
	return l.Int64(), h.Int64(), true
}

// Bounds is bounds.
func (w *World) Bounds(p Poly) (int64, int64, bool) { return w.bounds(p) }

type decision struct {
	key      string
	n, taken int
}

// Cut ends a trace that reached its unrolling bound.
type Cut struct{}

func NewWorld(prefix []int) *World {
	return &World{Atoms: map[string]*AtomInfo{}, kinds: map[string]string{}, prefix: prefix, known: map[string]int{}, halfOf: map[string]Poly{}}
}

// Next computes the decision vector after w's, or nil when all were explored.
func (w *World) Next() ([]int, bool) {
	i := len(w.Trace) - 1
	for i >= 0 && w.Trace[i].taken+1 >= w.Trace[i].n {
		i--
	}
	if i < 0 {
		return nil, false
	}
	var p []int
	for j := 0; j < i; j++ {
		p = append(p, w.Trace[j].taken)
	}
	return append(p, w.Trace[i].taken+1), true
}

// Decide partitions on a key; the same key always gives the same answer within a trace.
func (w *World) Decide(key string, n int) int {
	if v, ok := w.known[key]; ok {
		return v
	}
	v := 0
	if i := len(w.Trace); i < len(w.prefix) {
		v = w.prefix[i]
	}
	w.Trace = append(w.Trace, decision{key, n, v})
	w.known[key] = v
	return v
}

func (w *World) Path() string {
	var r []string
	for _, d := range w.Trace {
		r = append(r, fmt.Sprintf("%s=%d", d.key, d.taken))
	}
	return strings.Join(r, ", ")
}

func (w *World) info(a string) *AtomInfo {
	i, ok := w.Atoms[a]
	if !ok {
		i = &AtomInfo{}
		w.Atoms[a] = i
	}
	return i
}

func (w *World) Info(a string) *AtomInfo { return w.info(a) }

// Word introduces a word of a language kind: a tagged integer, a canonical boolean, or a reference.
func (w *World) Word(name, kind string) Poly {
	switch kind {
	case "int":
		i := w.info(name)
		i.R63 = true
		if w.Lib && !i.HasRange {
			i.HasRange, i.Lo, i.Hi = true, -(1 << 62), 1<<62-1
		}
		return Atom(name).Scale(2).Add(Const(1))
	case "bool":
		w.info(name).Bool = true
		return Atom(name)
	case "ptr":
		w.info(name).Ptr = true
		return Atom(name)
	}
	w.info(name)
	return Atom(name)
}

func (w *World) monoMul(a, b string) string {
	var parts []string
	if a != "" {
		parts = append(parts, strings.Split(a, "*")...)
	}
	if b != "" {
		parts = append(parts, strings.Split(b, "*")...)
	}
	sort.Strings(parts)
	// booleans are idempotent
	var out []string
	for i, p := range parts {
		if i > 0 && p == parts[i-1] && w.info(p).Bool {
			continue
		}
		out = append(out, p)
	}
	return strings.Join(out, "*")
}

func (w *World) Mul(p, q Poly) Poly {
	r := Poly{map[string]uint64{}}
	for a, x := range p.t {
		for b, y := range q.t {
			k := w.monoMul(a, b)
			r.t[k] += x * y
			if r.t[k] == 0 {
				delete(r.t, k)
			}
		}
	}
	return r
}

// isBool reports whether p is certainly 0 or 1.
func (w *World) isBool(p Poly) bool {
	if c, ok := p.IsConst(); ok {
		return c == 0 || c == 1
	}
	atoms := w.boolAtoms(p)
	if atoms == nil || len(atoms) > 6 {
		return false
	}
	// all valuations of the boolean atoms
	for v := 0; v < 1<<uint(len(atoms)); v++ {
		sum := w.valuate(p, atoms, v)
		if sum != 0 && sum != 1 {
			return false
		}
	}
	return true
}

func (w *World) boolAtoms(p Poly) []string {
	set := map[string]bool{}
	for m := range p.t {
		if m == "" {
			continue
		}
		for _, a := range strings.Split(m, "*") {
			if !w.info(a).Bool {
				return nil
			}
			set[a] = true
		}
	}
	var r []string
	for a := range set {
		r = append(r, a)
	}
	sort.Strings(r)
	return r
}

func (w *World) valuate(p Poly, atoms []string, v int) uint64 {
	var sum uint64
	for m, c := range p.t {
		on := true
		if m != "" {
			for _, a := range strings.Split(m, "*") {
				i := sort.SearchStrings(atoms, a)
				if v>>uint(i)&1 == 0 {
					on = false
				}
			}
		}
		if on {
			sum += c
		}
	}
	return sum
}

// inRange reports whether p is certainly a signed value of at most 63 bits.
func (w *World) inRange(p Poly) bool {
	if c, ok := p.IsConst(); ok {
		return c >= -(1<<62) && c < 1<<62
	}
	if a, ok := p.SingleAtom(); ok {
		i := w.info(a)
		return i.R63 || i.Bool
	}
	if w.isBool(p) {
		return true
	}
	if lo, hi, ok := w.bounds(p); ok && lo >= -(1<<62) && hi < 1<<62 {
		return true
	}
	return false
}

func (w *World) opAtom(op string, info AtomInfo, args ...Poly) Poly {
	var ks []string
	for _, a := range args {
		if !w.Lib {
			a = w.norm(a)
		}
		ks = append(ks, a.Key())
	}
	// atoms must not contain '*': monomials are joined by it
	n := strings.ReplaceAll(op+"("+strings.Join(ks, ",")+")", "*", "×")
	i := info
	w.Atoms[n] = &i
	if w.Terms == nil {
		w.Terms = map[string]Term{}
	}
	w.Terms[n] = Term{op, args}
	return Atom(n)
}

// Sar is the arithmetic right shift by a constant.
func (w *World) Sar(p Poly, k uint) Poly {
	if k == 0 {
		return p
	}
	if !w.Lib {
		p = w.norm(p)
	}
	if c, ok := p.IsConst(); ok {
		return Const(c >> k)
	}
	r := uint64(p.ConstPart()) & (1<<k - 1)
	if q, ok := p.Sub(Const(int64(r))).divPow2(k); ok && k == 1 && w.inRange(q) {
		return q
	}
	if q, ok := p.Sub(Const(int64(r))).divPow2(k); ok {
		// exact when the shifted polynomial does not overflow
		if lo, hi, ok := w.bounds(q); ok && lo >= -(1<<(63-k)) && hi < 1<<(63-k) {
			return q
		}
	}
	if q, ok := w.dropLow(p, k); ok {
		return q
	}
	if n, low := w.lowBits(p); w.Lib && n > k && n < 63 {
		// the bits between k and n are known
		s := w.opAtom(fmt.Sprintf("sar%d", n), AtomInfo{R63: true, HasRange: true, Lo: -(1 << (63 - n)), Hi: 1<<(63-n) - 1}, p)
		return s.Scale(1 << (n - k)).Add(Const(low >> k))
	}
	if w.Lib && k == 1 {
		if q, ok := w.wrap63(p); ok {
			return q
		}
	}
	in := AtomInfo{R63: true}
	if w.Lib {
		in.HasRange, in.Lo, in.Hi = true, -(1 << (63 - k)), 1<<(63-k)-1
	}
	r1 := w.opAtom(fmt.Sprintf("sar%d", k), in, p)
	if a, ok := r1.SingleAtom(); ok && k == 1 {
		w.halfOf[a] = p
	}
	return r1
}

// dropLow is p>>k for p = q·2^k + r with 0 <= r < 2^k, when neither wraps.
func (w *World) dropLow(p Poly, k uint) (Poly, bool) {
	hi, lo := Poly{map[string]uint64{}}, Poly{map[string]uint64{}}
	for m, c := range p.t {
		switch {
		case m == "":
			lo.t[m] = c & (1<<k - 1)
			hi.t[m] = c &^ (1<<k - 1)
		case c&(1<<k-1) == 0:
			hi.t[m] = c
		default:
			lo.t[m] = c
		}
	}
	l, h, ok := w.bounds(lo)
	if !ok || l < 0 || h >= 1<<k {
		return Poly{}, false
	}
	if _, _, ok := w.bounds(p); !ok {
		return Poly{}, false
	}
	q, ok := hi.divPow2(k)
	if !ok {
		return Poly{}, false
	}
	for m, c := range q.t {
		if c == 0 {
			delete(q.t, m)
		}
	}
	return q, true
}

// wrap63 partitions a tagged word's value by how often it leaves the 63-bit range.
func (w *World) wrap63(p Poly) (Poly, bool) {
	r := p.ConstPart() & 1
	q, ok := p.Sub(Const(r)).divPow2(1)
	if !ok {
		return Poly{}, false
	}
	lo, hi, ok := w.BigBounds(q)
	if !ok {
		return Poly{}, false
	}
	m, half := new(big.Int).Lsh(big.NewInt(1), 63), new(big.Int).Lsh(big.NewInt(1), 62)
	type piece struct {
		k      int64
		lo, hi int64
	}
	var ps []piece
	k := new(big.Int).Div(new(big.Int).Add(lo, half), m)
	for {
		a := new(big.Int).Sub(new(big.Int).Mul(k, m), half)
		b := new(big.Int).Sub(new(big.Int).Add(a, m), big.NewInt(1))
		if a.Cmp(hi) > 0 {
			break
		}
		x, y := lo, hi
		if a.Cmp(x) > 0 {
			x = a
		}
		if b.Cmp(y) < 0 {
			y = b
		}
		d := new(big.Int).Mul(k, m)
		ps = append(ps, piece{k.Int64(), new(big.Int).Sub(x, d).Int64(), new(big.Int).Sub(y, d).Int64()})
		if len(ps) > 4 {
			return Poly{}, false
		}
		k = new(big.Int).Add(k, big.NewInt(1))
	}
	key := strings.ReplaceAll("wrap("+q.Key()+")", "*", "×")
	_, seen := w.known[key]
	c := ps[w.Decide(key, len(ps))]
	if c.k == 0 {
		if !seen {
			w.Facts = append(w.Facts, q.Sub(Const(c.lo)), Const(c.hi).Sub(q))
		}
		return q, true
	}
	n := fmt.Sprintf("%s#%d", key, c.k)
	*w.info(n) = AtomInfo{R63: true, HasRange: true, Lo: c.lo, Hi: c.hi}
	return Atom(n), true
}

// norm rewrites 2·(x>>1) to x minus its low bit where that bit is known.
func (w *World) norm(p Poly) Poly {
	for i := 0; i < 8; i++ {
		done := true
		for m, c := range p.t {
			x, ok := w.halfOf[m]
			if !ok || c&1 != 0 {
				continue
			}
			bit, ok := w.parity(x)
			if !ok {
				continue
			}
			q := p.clone()
			delete(q.t, m)
			p = q.Add(x.Sub(bit).Scale(uint64(int64(c) / 2)))
			done = false
			break
		}
		if done {
			return p
		}
	}
	return p
}

func (w *World) lowK(p Poly) uint { k, _ := w.lowBits(p); return k }

func (w *World) Shl(p Poly, k uint) Poly { return w.norm(p.Scale(1 << k)) }

func (w *World) Shr(p Poly, k uint) Poly {
	if k == 0 {
		return p
	}
	if c, ok := p.IsConst(); ok {
		return Const(int64(uint64(c) >> k))
	}
	return w.opAtom(fmt.Sprintf("shr%d", k), AtomInfo{R63: k > 1}, p)
}

// parity returns p mod 2 when it is known.
func (w *World) parity(p Poly) (Poly, bool) {
	odd := Poly{map[string]uint64{}}
	for m, c := range p.t {
		if c&1 == 1 {
			odd.t[m] = 1
		}
	}
	if c, ok := odd.IsConst(); ok {
		return Const(c), true
	}
	if atoms := w.boolAtoms(odd); atoms != nil {
		// xor of boolean monomials
		acc := Const(0)
		for m := range odd.t {
			t := Poly{map[string]uint64{m: 1}}
			// acc xor t
			acc = acc.Add(t).Sub(w.Mul(acc, t).Scale(2))
		}
		return acc, true
	}
	return Poly{}, false
}

// Bitwise and/or/xor.
func (w *World) Bit(op string, p, q Poly) Poly {
	a, ok1 := p.IsConst()
	b, ok2 := q.IsConst()
	if ok1 && ok2 {
		switch op {
		case "and":
			return Const(a & b)
		case "or":
			return Const(a | b)
		}
		return Const(a ^ b)
	}
	if ok1 {
		p, q, a, b, ok1, ok2 = q, p, b, a, ok2, ok1
	}
	if p.Eq(q) {
		if op == "xor" {
			return Const(0)
		}
		return p
	}
	if ok2 {
		switch {
		case op == "and" && b == 0:
			return Const(0)
		case op == "and" && b == -1:
			return p
		case (op == "or" || op == "xor") && b == 0:
			return p
		case op == "xor" && b == -1:
			return p.Not()
		case op == "or" && b == -1:
			return Const(-1)
		case op == "and" && b > 0 && b&(b+1) == 0 && w.within(p, 0, b):
			return p
		case op == "and" && b > 0 && bits.Len64(uint64(b)) <= int(w.lowK(p)):
			_, low := w.lowBits(p)
			return Const(low & b)
		case op == "and" && b < 0 && -b&(-b-1) == 0 && uint(bits.TrailingZeros64(uint64(b))) <= w.lowK(p):
			_, low := w.lowBits(p)
			return p.Sub(Const(low & ^b))
		case (op == "or" || op == "xor") && b > 0 && bits.Len64(uint64(b)) <= int(w.lowK(p)):
			_, low := w.lowBits(p)
			if op == "or" {
				return p.Add(Const(b &^ low))
			}
			return p.Add(Const(low ^ b)).Sub(Const(low))
		case op == "and" && b < 0 && bits.Len64(uint64(^b)) <= int(w.lowK(p)):
			_, low := w.lowBits(p)
			return p.Sub(Const(low & ^b))
		case b == 1:
			if par, ok := w.parity(p); ok {
				switch op {
				case "and":
					return par
				case "or":
					return p.Add(Const(1)).Sub(par)
				case "xor":
					return p.Add(Const(1)).Sub(par.Scale(2))
				}
			}
		case op == "and" && b == -2:
			if par, ok := w.parity(p); ok {
				return p.Sub(par)
			}
		}
	}
	if w.isBool(p) && w.isBool(q) {
		m := w.Mul(p, q)
		switch op {
		case "and":
			return m
		case "or":
			return p.Add(q).Sub(m)
		}
		return p.Add(q).Sub(m.Scale(2))
	}
	// strip the common low bit: (2p'+a) op (2q'+b) = 2(p' op q') + (a op b)
	pp, okp := w.halve(p)
	qq, okq := w.halve(q)
	if okp && okq {
		pl, ql := p.ConstPart()&1, q.ConstPart()&1
		var low int64
		switch op {
		case "and":
			low = pl & ql
		case "or":
			low = pl | ql
		default:
			low = pl ^ ql
		}
		return w.Bit(op, pp, qq).Scale(2).Add(Const(low))
	}
	in := AtomInfo{}
	if c, ok := q.IsConst(); ok && op == "and" && c > 0 {
		in.HasRange, in.Lo, in.Hi = true, 0, c
	}
	if p.Key() > q.Key() {
		p, q = q, p
	}
	if w.inRange(p) && w.inRange(q) {
		in.R63 = true
	}
	return w.opAtom(op, in, p, q)
}

// within: p's value is known to lie in the interval.
func (w *World) within(p Poly, lo, hi int64) bool {
	l, h, ok := w.bounds(p)
	return ok && l >= lo && h <= hi
}

// halve writes p as 2p'+c with c in {0,1}; only identities valid bitwise are used.
func (w *World) halve(p Poly) (Poly, bool) {
	if _, ok := p.IsConst(); ok {
		c := p.ConstPart()
		return Const(c >> 1), true
	}
	r := p.Sub(Const(p.ConstPart() & 1))
	for m, v := range r.t {
		if v&1 != 0 {
			return Poly{}, false
		}
		_ = m
	}
	return r.divPow2(1)
}

// constOp evaluates an operator on constants.
func constOp(p, q Poly, f func(a, b int64) int64) (Poly, bool) {
	a, ok1 := p.IsConst()
	b, ok2 := q.IsConst()
	if ok1 && ok2 {
		return Const(f(a, b)), true
	}
	return Poly{}, false
}

func (w *World) Div(p, q Poly) Poly {
	if b, ok := q.IsConst(); ok && b != 0 && b != -1 {
		if r, ok := constOp(p, q, func(a, b int64) int64 { return a / b }); ok {
			return r
		}
	}
	return w.opAtom("div", AtomInfo{}, p, q)
}
func (w *World) Rem(p, q Poly) Poly { return w.opAtom("rem", AtomInfo{R63: true}, p, q) }
func (w *World) ShlV(p, q Poly) Poly {
	if k, ok := q.IsConst(); ok && w.Lib {
		return w.norm(p.Scale(1 << uint(k&63)))
	}
	if r, ok := constOp(p, q, func(a, b int64) int64 { return a << uint(b&63) }); ok {
		return r
	}
	return w.opAtom("shl", AtomInfo{}, p, q)
}
func (w *World) SarV(p, q Poly) Poly {
	if k, ok := q.IsConst(); ok && w.Lib {
		return w.Sar(p, uint(k&63))
	}
	if r, ok := constOp(p, q, func(a, b int64) int64 { return a >> uint(b&63) }); ok {
		return r
	}
	return w.opAtom("sar", AtomInfo{R63: true}, p, q)
}
func (w *World) ShrV(p, q Poly) Poly { return w.opAtom("shr", AtomInfo{}, p, q) }

// cmpNorm strips equal tags off both sides of a comparison.
func (w *World) cmpNorm(p, q Poly) (Poly, Poly) {
	half := func(x Poly) (Poly, bool) {
		h, ok := w.halve(x)
		if ok && x.ConstPart()&1 == 1 && w.inRange(h) {
			return h, true
		}
		return Poly{}, false
	}
	if a, ok := half(p); ok {
		if b, ok := half(q); ok {
			return a, b
		}
	}
	return p, q
}

// Lt is signed less-than, as a boolean word.
func (w *World) Lt(p, q Poly) Poly {
	p, q = w.cmpNorm(p, q)
	a, ok1 := p.IsConst()
	b, ok2 := q.IsConst()
	if ok1 && ok2 {
		if a < b {
			return Const(1)
		}
		return Const(0)
	}
	if p.Eq(q) {
		return Const(0)
	}
	if l1, h1, ok := w.bounds(p); ok {
		if l2, h2, ok := w.bounds(q); ok {
			switch {
			case h1 < l2:
				return Const(1)
			case l1 >= h2:
				return Const(0)
			}
		}
	}
	return w.opAtom("lt", AtomInfo{Bool: true}, p, q)
}

// Ult is unsigned less-than.
func (w *World) Ult(p, q Poly) Poly {
	a, ok1 := p.IsConst()
	b, ok2 := q.IsConst()
	if ok1 && ok2 {
		if uint64(a) < uint64(b) {
			return Const(1)
		}
		return Const(0)
	}
	if p.Eq(q) {
		return Const(0)
	}
	if ok1 && a >= 0 && w.nonNeg[q.Key()] {
		return w.Lt(p, q)
	}
	return w.opAtom("ult", AtomInfo{Bool: true}, p, q)
}

func (w *World) EqW(p, q Poly) Poly {
	p, q = w.cmpNorm(p, q)
	if c, ok := p.Sub(q).IsConst(); ok {
		if c == 0 {
			return Const(1)
		}
		return Const(0)
	}
	if l1, h1, ok := w.bounds(p); ok {
		if l2, h2, ok := w.bounds(q); ok && (h1 < l2 || h2 < l1) {
			return Const(0)
		}
	}
	if par, ok := w.parity(p.Sub(q)); ok {
		if c, ok := par.IsConst(); ok && c == 1 {
			return Const(0)
		}
	}
	// boolean against a constant
	if c, ok := q.IsConst(); ok && w.isBool(p) {
		switch c {
		case 1:
			return p
		case 0:
			return Const(1).Sub(p)
		}
		return Const(0)
	}
	if c, ok := p.IsConst(); ok && w.isBool(q) {
		switch c {
		case 1:
			return q
		case 0:
			return Const(1).Sub(q)
		}
		return Const(0)
	}
	if w.isBool(p) && w.isBool(q) {
		// 1 - (p xor q)
		return Const(1).Sub(w.Bit("xor", p, q))
	}
	if p.Key() > q.Key() {
		p, q = q, p
	}
	return w.opAtom("eq", AtomInfo{Bool: true}, p, q)
}

// Truth decides a 0/1 word by partitioning on its boolean atoms.
func (w *World) Truth(p Poly) (bool, error) {
	if c, ok := p.IsConst(); ok {
		return c != 0, nil
	}
	atoms := w.boolAtoms(p)
	if atoms == nil {
		return false, fmt.Errorf("branch on a word that is not a boolean: %s", p)
	}
	v := 0
	for i, a := range atoms {
		if w.Decide(a, 2) == 1 {
			v |= 1 << uint(i)
		}
	}
	s := w.valuate(p, atoms, v)
	if s > 1 {
		return false, fmt.Errorf("branch on a non-canonical boolean: %s", p)
	}
	return s == 1, nil
}

// Subst replaces decided boolean atoms by their values.
func (w *World) Subst(p Poly) Poly {
	r := Const(0)
	for m, c := range p.t {
		term := Const(int64(c))
		if m != "" {
			for _, a := range strings.Split(m, "*") {
				if w.info(a).Bool {
					if v, ok := w.known[a]; ok {
						term = w.Mul(term, Const(int64(v)))
						continue
					}
				}
				term = w.Mul(term, Atom(a))
			}
		}
		r = r.Add(term)
	}
	return r
}

// Eq compares two words under the decisions taken.
func (w *World) Eq(p, q Poly) bool {
	if p.Eq(q) {
		return true
	}
	return w.norm(w.Subst(p)).Eq(w.norm(w.Subst(q)))
}

// SetKind records what the memory word at addr holds, for loads.
func (w *World) SetKind(addr Poly, kind string) { w.kinds[addr.Key()] = kind }

// SetKindAt is SetKind for the word's content after `epoch` effects; the first declaration stands.
func (w *World) SetKindAt(addr Poly, epoch int, kind string) {
	k := fmt.Sprintf("%d@%s", epoch, addr.Key())
	if _, ok := w.kinds[k]; !ok {
		w.kinds[k] = kind
	}
}

// Constant marks the word at addr as never changing.
func (w *World) Constant(addr Poly) {
	if w.fixed == nil {
		w.fixed = map[string]bool{}
	}
	w.fixed[addr.Key()] = true
}

// NonNegative records that a word is not negative.
func (w *World) NonNegative(p Poly) {
	if w.nonNeg == nil {
		w.nonNeg = map[string]bool{}
	}
	w.nonNeg[p.Key()] = true
}

// Load is the content of memory at addr after `epoch` effects.
func (w *World) Load(addr Poly, epoch int) Poly {
	if w.fixed[addr.Key()] {
		epoch = 0
	}
	n := strings.ReplaceAll(fmt.Sprintf("ld%d[%s]", epoch, addr.Key()), "*", "×")
	if k, ok := w.kinds[fmt.Sprintf("%d@%s", epoch, addr.Key())]; ok {
		return w.Word(n, k)
	}
	return w.Word(n, w.kinds[addr.Key()])
}

// Known gives the decided boolean atoms.
func (w *World) Known() map[string]int { return w.known }

// Half is (p-1)/2 for an odd tagged word p, without wrapping.
func (w *World) Half(p Poly) Poly {
	if q, ok := p.Sub(Const(p.ConstPart() & 1)).divPow2(1); ok {
		return q
	}
	return p
}
