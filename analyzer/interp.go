package main

// Random interpretation of value graphs (after Gulwani and Necula): two normal
// forms that are not the same term may still denote the same value. Before a
// difference is believed, both are given meanings under many interpretations of
// their opaque parts (parameters, file contents, library calls), chosen at
// random; a difference is only kept if one of them tells the two apart.
//
// What is interpreted is the value graph, never the program.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
)

type V interface{}

type (
	nilV  struct{}
	botV  struct{}
	keepV struct{}
	seqV  []V
	pairV struct{ k, v V }
	// an opaque value, only known by its identity
	tokV struct {
		h   uint64
		typ types.Type
		d   int
	}
	// a struct whose fields are made on demand
	lazyV struct {
		h  uint64
		st *types.Struct
		d  int
		tw uint64 // a value most fields are taken from
	}
	structV struct {
		keys string
		vs   []V
	}
	mapV struct {
		ks []V
		vs []V
		ix map[uint64]int
		h  uint64 // identity, if opaque
		nn bool   // not nil though empty
	}
	conV struct {
		h  uint64
		op string
		as []V
		t  *Term // of a function, its body
	}
)

type frame1 struct {
	el, ix, key, sa, sb V
	lv                  map[string]V
	memo                map[*Node]V
	memoT               map[*Term]V
	domT                *Term
}

type noModel struct{ why string }

type interp struct {
	seed   uint64
	env    [64]*frame1
	memo   map[*Node]V
	memoT  map[*Term]V
	hashes map[*lazyV]uint64
	pools  map[string][]V      // constants that values of this kind are compared with
	frags  map[string][]string // pieces that strings of this kind are looked at for
	splits map[string]string   // strings of this kind are taken apart at this
	lens   map[string][]int    // lengths that values of this kind are compared with
	fav    map[string]V        // of which this one is likely
	favLen map[string]int
	force  map[*Term]bool  // truth values to be preferred for opaque conditions
	given  map[uint64]bool // answers to what is forced, by what was asked
	types  []string
	consts []string
	rErr   float64
	rNil   float64
	rBool  float64
	rLen   int
	watch  map[*Term]uint8 // terms to be exercised: what was seen of them
	steps  int
	limit  int
	ticks  int // of all interpretations
	// what the first of two passes over the nodes found to matter: keys looked up
	// in opaque maps, and strings that were compared and differ
	pass  int
	asked map[uint64][]V
	met   map[string][]string
	nmet  int
}

func h64(parts ...uint64) uint64 {
	x := uint64(0x9E3779B97F4A7C15)
	for _, p := range parts {
		x ^= p + 0x9E3779B97F4A7C15 + (x << 6) + (x >> 2)
		x ^= x >> 33
		x *= 0xff51afd7ed558ccd
		x ^= x >> 29
		x *= 0xc4ceb9fe1a85ec53
		x ^= x >> 32
	}
	return x
}

func hs(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (in *interp) rnd(h uint64, what string) *rand.Rand {
	return rand.New(rand.NewSource(int64(h64(in.seed, h, hs(what)) >> 1)))
}

func (in *interp) unit(h uint64, what string) float64 {
	return float64(h64(in.seed, h, hs(what))>>11) / float64(1<<53)
}

func (in *interp) hash(v V) uint64 {
	switch x := v.(type) {
	case nil, nilV:
		return 1
	case botV:
		return 2
	case keepV:
		return 3
	case bool:
		if x {
			return 4
		}
		return 5
	case string:
		return h64(6, hs(x))
	case int64:
		return h64(7, uint64(x))
	case seqV:
		if len(x) == 0 {
			return 1 // nil and empty are not told apart
		}
		hh := uint64(8)
		for _, e := range x {
			hh = h64(hh, in.hash(e))
		}
		return hh
	case pairV:
		return h64(9, in.hash(x.k), in.hash(x.v))
	case tokV:
		return h64(10, x.h)
	case *lazyV:
		if h, ok := in.hashes[x]; ok {
			return h
		}
		ks := fieldKeys(x.st)
		hh := h64(11)
		for i, k := range ks {
			hh = h64(hh, hs(k), in.hash(in.fieldOf(x, k, x.st.Field(i).Type())))
		}
		in.hashes[x] = hh
		return hh
	case *structV:
		hh := h64(11)
		if len(x.vs) > 0 {
			for i, k := range strings.Split(x.keys, "|") {
				hh = h64(hh, hs(k), in.hash(x.vs[i]))
			}
		}
		return hh
	case *mapV:
		if len(x.ks) == 0 {
			return 1
		}
		var sum uint64
		for i := range x.ks {
			sum += h64(12, in.hash(x.ks[i]), in.hash(x.vs[i]))
		}
		return h64(13, sum)
	case conV:
		return h64(14, x.h)
	}
	panic(fmt.Sprintf("hash of %T", v))
}

func poolKey(t *Term) string {
	switch t.op {
	case "field":
		return "field " + t.s
	case "call":
		return "call " + t.s
	case "param":
		return "param " + t.s
	case "flagval", "gval":
		return t.op + " " + t.s
	case "el", "index", "first", "lastof", "lv", "sa", "sb", "pre", "get", "line":
		return "el"
	}
	return t.op
}

var fillers = []string{"a", "b", "ab", "1.0", "2", " ", "A", "a", "b"}

var smallStrings = []string{"a", "b", "ab", "a:b", "a/b", "1.0", "b-a"}

// gen makes a value of a type from an identity
func (in *interp) gen(h uint64, typ types.Type, key string, depth int) V {
	in.tick()
	if traceGen {
		fmt.Println("GEN", key, typ)
	}
	if typ == nil {
		if _, ok := in.splits[key]; ok {
			return in.genStr(h, key)
		}
		return tokV{h, nil, depth}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.unit(h, "bool") < in.rBool
		case u.Info()&types.IsInteger != 0:
			return in.genInt(h, key)
		case u.Info()&types.IsString != 0:
			return in.genStr(h, key)
		}
		return tokV{h, typ, depth}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if _, ok := in.splits[key]; ok || len(in.frags[key])+len(in.pools[key]) > 0 {
				return in.genStr(h, key)
			}
			return tokV{h, typ, depth}
		}
		n := in.genLen(h, depth, key)
		out := make(seqV, n)
		twin := n > 1 && in.unit(h, "twin") < 0.45
		for i := range out {
			out[i] = in.gen(h64(h, 77, uint64(i)), u.Elem(), "el", depth+1)
			if twin && i > 0 {
				in.twin(out, i, h64(h, 77, 0))
			}
		}
		return out
	case *types.Map:
		n := in.genLen(h, depth, key)
		m := &mapV{ix: map[uint64]int{}, nn: in.unit(h, "nn") < 0.5}
		for i := 0; i < n; i++ {
			k := in.gen(h64(h, 78, uint64(i)), u.Key(), "key", depth+1)
			v := []V{in.gen(h64(h, 79, in.hash(k)), u.Elem(), "el", depth+1)}
			if in.unit(h, "twin") < 0.3 {
				in.twin(v, 0, h64(h, 79, 0))
			}
			in.mapSet(m, k, v[0])
		}
		if in.pass == 2 {
			for _, k := range in.asked[h] {
				if in.unit(h64(h, in.hash(k)), "asked") < 0.6 {
					in.mapSet(m, k, in.gen(h64(h, 79, in.hash(k)), u.Elem(), "el", depth+1))
				}
			}
		}
		m.h = h
		return m
	case *types.Struct:
		return &lazyV{h, canon(u), depth, 0}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		p := in.rNil
		if isErrorIface(typ) {
			p = 1 - in.rErr
		} else if key == "" || strings.HasPrefix(key, "param") || strings.HasPrefix(key, "gval") {
			p = 0.03
		}
		if in.unit(h, "nil") < p {
			return nilV{}
		}
		return tokV{h, typ, depth}
	}
	return tokV{h, typ, depth}
}

// twin makes an element resemble another one
func (in *interp) twin(s []V, i int, h uint64) {
	switch x := s[i].(type) {
	case *lazyV:
		x.tw = h
	case string:
		if o, ok := s[0].(string); ok && in.unit(h64(h, uint64(i)), "same") < 0.5 {
			s[i] = o
		}
	}
}

func (in *interp) genLen(h uint64, depth int, key string) int {
	if p := in.lens[key]; len(p) > 0 && depth < 6 {
		u := in.unit(h, "len")
		if k, ok := in.favLen[key]; ok && u < 0.5 {
			return k
		}
		if u < 0.75 {
			return p[h64(in.seed, h, 8)%uint64(len(p))]
		}
	}
	n := int(h64(in.seed, h, 5) % uint64(in.rLen+1))
	if depth >= 2 && n > 1 {
		n = 1 + int(h64(in.seed, h, 6)%2)
	}
	if depth >= 4 {
		n = int(h64(in.seed, h, 7) % 2)
	}
	if depth >= 6 {
		n = 0
	}
	return n
}

func (in *interp) genInt(h uint64, key string) V {
	u := in.unit(h, "int")
	if v, ok := in.fav[key]; ok && u < 0.4 {
		if k, ok := v.(int64); ok {
			return k
		}
	}
	if p := in.pools[key]; len(p) > 0 && u < 0.7 {
		if k, ok := p[h64(in.seed, h, 11)%uint64(len(p))].(int64); ok {
			return k
		}
	}
	return int64(h64(in.seed, h, 12)%6) - 1
}

func (in *interp) genStr(h uint64, key string) (r V) {
	if traceGen {
		defer func() { fmt.Printf("STR %s %q\n", key, r) }()
	}
	s := in.genStr1(h, key)
	if in.pass == 2 {
		if o := in.met[s.(string)]; len(o) > 0 && in.unit(h, "met") < 0.35 {
			return o[h64(in.seed, h, 51)%uint64(len(o))]
		}
	}
	return s
}

func (in *interp) genStr1(h uint64, key string) V {
	u := in.unit(h, "str")
	if sep, ok := in.splits[key]; ok && u < 0.8 {
		n := 1 + int(h64(in.seed, h, 61)%6)
		var ss []string
		for i := 0; i < n; i++ {
			hh := h64(h, 62, uint64(i))
			if p := in.pools["el"]; len(p) > 0 && in.unit(hh, "part") < 0.6 {
				if s, ok := p[h64(in.seed, hh, 63)%uint64(len(p))].(string); ok {
					ss = append(ss, s)
					continue
				}
			}
			ss = append(ss, in.genStr1(hh, "el").(string))
		}
		return strings.Join(ss, sep)
	}
	if v, ok := in.fav[key]; ok && u < 0.35 {
		if k, ok := v.(string); ok {
			return k
		}
	}
	if p := in.pools[key]; len(p) > 0 && u < 0.55 {
		if k, ok := p[h64(in.seed, h, 21)%uint64(len(p))].(string); ok {
			return k
		}
	}
	if fr := in.frags[key]; len(fr) > 0 && u < 0.75 {
		if p := in.pools[key]; len(p) > 0 && h64(in.seed, h, 32)%3 == 0 {
			// a string of interest with another piece in it
			if s, ok := p[h64(in.seed, h, 33)%uint64(len(p))].(string); ok {
				f := fr[h64(in.seed, h, 35)%uint64(len(fr))]
				for i := h64(in.seed, h, 37) % 4; ; i-- {
					k := int(h64(in.seed, h, 34, i) % uint64(len(s)+1))
					if j := strings.Index(s[k:], " "); j >= 0 && h64(in.seed, h, 36, i)%2 == 0 {
						k += j
					}
					s = s[:k] + f + s[k:]
					if i == 0 {
						break
					}
				}
				return s
			}
		}
		n := 1 + int(h64(in.seed, h, 28)%6)
		s := ""
		for i := 0; i < n; i++ {
			if h64(in.seed, h, 29, uint64(i))%5 < 2 {
				s += fillers[h64(in.seed, h, 30, uint64(i))%uint64(len(fillers))]
			} else {
				s += fr[h64(in.seed, h, 31, uint64(i))%uint64(len(fr))]
			}
		}
		return s
	}
	u = in.unit(h, "str2")*0.45 + 0.55
	switch {
	case u < 0.65:
		return ""
	case u < 0.85:
		return smallStrings[h64(in.seed, h, 22)%uint64(len(smallStrings))]
	case u < 0.95 && len(in.consts) > 0:
		n := 1 + int(h64(in.seed, h, 23)%3)
		s := ""
		for i := 0; i < n; i++ {
			if h64(in.seed, h, 24, uint64(i))%3 == 0 {
				s += smallStrings[h64(in.seed, h, 25, uint64(i))%uint64(len(smallStrings))]
			} else {
				s += in.consts[h64(in.seed, h, 26, uint64(i))%uint64(len(in.consts))]
			}
		}
		return s
	}
	return "u" + strconv.FormatUint(h64(in.seed, h, 27)%1000003, 36)
}

func (in *interp) mapSet(m *mapV, k, v V) {
	h := in.hash(k)
	if i, ok := m.ix[h]; ok {
		m.vs[i] = v
		return
	}
	m.ix[h] = len(m.ks)
	m.ks = append(m.ks, k)
	m.vs = append(m.vs, v)
}

// order in which the entries of a map are visited
func (in *interp) order(m *mapV) []int {
	is := make([]int, len(m.ks))
	for i := range is {
		is[i] = i
	}
	sort.Slice(is, func(a, b int) bool { return h64(in.seed, in.hash(m.ks[is[a]])) < h64(in.seed, in.hash(m.ks[is[b]])) })
	return is
}

func (in *interp) tick() {
	in.steps++
	in.ticks++
	if in.steps > in.limit {
		panic(noModel{"too many steps"})
	}
}

func (in *interp) fieldOf(v V, key string, typ types.Type) V {
	switch x := v.(type) {
	case botV:
		return botV{}
	case *structV:
		for i, k := range strings.Split(x.keys, "|") {
			if k == key && i < len(x.vs) {
				return x.vs[i]
			}
		}
	case *lazyV:
		if typ == nil {
			for i, k := range fieldKeys(x.st) {
				if k == key {
					typ = x.st.Field(i).Type()
				}
			}
		}
		if x.tw != 0 && in.unit(h64(x.h, hs(key)), "mut") < 0.75 {
			return in.gen(h64(x.tw, 31, hs(key)), typ, "field "+key, x.d)
		}
		return in.gen(h64(x.h, 31, hs(key)), typ, "field "+key, x.d)
	case tokV:
		return in.gen(h64(x.h, 31, hs(key)), typ, "field "+key, x.d)
	}
	return in.gen(h64(in.hash(v), 31, hs(key)), typ, "field "+key, 1)
}

func (in *interp) asSeq(v V) seqV {
	switch x := v.(type) {
	case seqV:
		return x
	case nilV, botV, nil:
		return nil
	case string:
		return nil
	case *mapV:
		if len(x.ks) == 0 {
			return nil
		}
	case tokV:
		n := in.genLen(x.h, x.d, "el")
		out := make(seqV, n)
		for i := range out {
			out[i] = tokV{h64(x.h, 77, uint64(i)), nil, x.d + 1}
		}
		return out
	}
	n := in.genLen(in.hash(v), 2, "")
	out := make(seqV, n)
	for i := range out {
		out[i] = tokV{h64(in.hash(v), 77, uint64(i)), nil, 3}
	}
	return out
}

func (in *interp) asMap(v V) *mapV {
	switch x := v.(type) {
	case *mapV:
		return x
	case seqV:
		if len(x) == 0 {
			return &mapV{ix: map[uint64]int{}}
		}
	case nilV, botV:
		return &mapV{ix: map[uint64]int{}}
	}
	h := in.hash(v)
	m := &mapV{ix: map[uint64]int{}}
	n := in.genLen(h, 1, "")
	for i := 0; i < n; i++ {
		k := in.genStr(h64(h, 78, uint64(i)), "key")
		in.mapSet(m, k, tokV{h64(h, 79, in.hash(k)), nil, 2})
	}
	return m
}

func (in *interp) asInt(v V) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case bool:
		if x {
			return 1
		}
		return 0
	}
	return in.genInt(in.hash(v), "").(int64)
}

func (in *interp) asStr(v V) string {
	if s, ok := v.(string); ok {
		return s
	}
	return in.genStr(in.hash(v), "el").(string)
}

// call applies a function of the value graph
func (in *interp) call(f V, args ...V) V {
	c, ok := f.(conV)
	if !ok || c.t == nil {
		return nil
	}
	h := binderHeight(c.t)
	old := in.env[h]
	defer func() { in.env[h] = old }()
	fr := &frame1{lv: map[string]V{}}
	for i, a := range args {
		fr.lv[strconv.Itoa(i+1)] = a
	}
	in.push(h, fr)
	return in.node(c.t.args[1], -1)
}

func (in *interp) isNil(v V) bool {
	switch x := v.(type) {
	case nilV:
		return true
	case seqV:
		return len(x) == 0
	case *mapV:
		return len(x.ks) == 0 && !x.nn
	case tokV:
		if x.typ == nil {
			return in.unit(x.h, "nil") < 0.5
		}
	}
	return false
}

func (in *interp) equal(a, b V) bool {
	if in.hash(a) == in.hash(b) {
		return true
	}
	// an untyped opaque value is compared as what the other is
	if t, ok := a.(tokV); ok && t.typ == nil {
		a, b = b, a
	}
	if t, ok := b.(tokV); ok && t.typ == nil {
		switch x := a.(type) {
		case string:
			return x == in.asStr(t)
		case int64:
			return x == in.asInt(t)
		case nilV:
			return in.isNil(t)
		case bool:
			return x == (in.unit(in.hash(t), "bool") < in.rBool)
		}
	}
	return false
}

func minBit(b uint64) int {
	for i := 0; i < 64; i++ {
		if b&(1<<i) != 0 {
			return i
		}
	}
	return -1
}

func (in *interp) node(n *Node, tr int) V {
	in.tick()
	if n.leaf != nil {
		return in.term(n.leaf, tr)
	}
	memo := in.memo
	if n.bfree != 0 {
		if f := in.env[minBit(n.bfree)]; f != nil {
			memo = f.memo
		} else {
			memo = nil
		}
	}
	if tr < 0 && memo != nil {
		if v, ok := memo[n]; ok {
			return v
		}
	}
	c := in.cond(n.atom, tr)
	var v V
	if c {
		v = in.node(n.hi, tr)
	} else {
		v = in.node(n.lo, tr)
	}
	if tr < 0 && memo != nil {
		memo[n] = v
	}
	return v
}

func (in *interp) cond(t *Term, tr int) bool {
	v := in.term(t, tr)
	b, ok := v.(bool)
	if !ok {
		b = in.unit(in.hash(v), "bool") < in.rBool
	}
	if w, ok := in.watch[t]; ok {
		if b {
			in.watch[t] = w | 1
		} else {
			in.watch[t] = w | 2
		}
	}
	return b
}

func (in *interp) term(t *Term, tr int) V {
	if t.op == "c" {
		return constV(t)
	}
	if isVarOp(t.op) {
		return in.variable(t)
	}
	memo := in.memoT
	if t.bfree != 0 {
		if f := in.env[minBit(t.bfree)]; f != nil {
			memo = f.memoT
		} else {
			memo = nil
		}
	}
	if tr < 0 && memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	in.tick()
	v := in.apply(t, tr)
	if w, ok := in.watch[t]; ok {
		if _, bot := v.(botV); !bot {
			in.watch[t] = w | 4
		}
	}
	if tr < 0 && memo != nil {
		memo[t] = v
	}
	return v
}

func constV(t *Term) V {
	switch {
	case t == termTrue:
		return true
	case t == termFalse:
		return false
	case t.s == "nil":
		return nilV{}
	case strings.HasPrefix(t.s, "s:"):
		return t.s[2:]
	case strings.HasPrefix(t.s, "i:"):
		k, _ := strconv.ParseInt(t.s[2:], 10, 64)
		return k
	}
	return conV{h: h64(hs("c"), hs(t.s)), op: "c"}
}

func (in *interp) variable(t *Term) V {
	_, h := varName(t.s)
	f := in.env[h]
	if h == 0 || f == nil {
		// a variable whose binder is not being interpreted
		return in.gen(h64(hs(t.op), hs(t.s)), t.typ, "el", 1)
	}
	var v V
	switch t.op {
	case "el":
		v = f.el
	case "ix":
		v = f.ix
	case "key":
		v = f.key
	case "sa":
		v = f.sa
	case "sb":
		v = f.sb
	case "lv":
		s := t.s
		if i := strings.IndexByte(s, '!'); i >= 0 {
			s = s[:i]
		}
		_, s, _ = strings.Cut(s, ".")
		v = f.lv[s]
	}
	if v == nil {
		return in.gen(h64(hs(t.op), hs(t.s)), t.typ, "el", 1)
	}
	if x, ok := v.(tokV); ok && x.typ == nil && t.typ != nil {
		return in.gen(x.h, t.typ, "el", x.d)
	}
	return v
}

// domain of a binder: its elements, and keys if it is a map
func (in *interp) domain(n *Node, tr int) (els, keys []V, endless bool) {
	v := in.node(n, -1)
	if n.leaf != nil {
		switch n.leaf.op {
		case "nat":
			for i := 0; i < 24; i++ {
				els = append(els, int64(i))
			}
			endless = true
		}
	}
	if c, ok := v.(conV); ok && c.op == "mdom" {
		m := c.as[0].(*mapV)
		for _, i := range in.order(m) {
			els = append(els, m.vs[i])
			keys = append(keys, m.ks[i])
		}
	} else if !endless {
		els = in.asSeq(v)
	}
	if tr >= 0 && tr < len(els) {
		els, endless = els[:tr], false
	}
	return els, keys, endless
}

func (in *interp) push(h int, f *frame1) *frame1 {
	old := in.env[h]
	f.memo = map[*Node]V{}
	f.memoT = map[*Term]V{}
	in.env[h] = f
	return old
}

func (in *interp) each(t *Term, tr int, f func(i int) bool) {
	els, keys, endless := in.domain(t.args[0], tr)
	h := binderHeight(t)
	old := in.env[h]
	defer func() { in.env[h] = old }()
	for i, e := range els {
		fr := &frame1{el: e, ix: int64(i), domT: t.args[0].leaf}
		if keys != nil {
			fr.key = keys[i]
		}
		in.push(h, fr)
		if !f(i) {
			return
		}
	}
	if endless {
		panic(noModel{"endless"})
	}
}

func (in *interp) args(t *Term, tr int) []V {
	out := make([]V, len(t.args))
	for i, a := range t.args {
		out[i] = in.node(a, tr)
	}
	return out
}

func (in *interp) ident(op, s string, as []V) uint64 {
	h := h64(hs(op), hs(s))
	for _, a := range as {
		h = h64(h, in.hash(a))
	}
	return h
}

func (in *interp) apply(t *Term, tr int) V {
	switch t.op {
	case "bot":
		return botV{}
	case "keep", "same":
		return keepV{}
	case "comp":
		out := seqV{}
		in.each(t, tr, func(int) bool {
			out = append(out, in.asSeq(in.node(t.args[1], -1))...)
			return true
		})
		return out
	case "lam":
		out := seqV{}
		if t.args[0] == Nil {
			return conV{h: h64(hs("lam"), uint64(t.id)), op: "lam", t: t}
		}
		in.each(t, tr, func(int) bool {
			out = append(out, in.node(t.args[1], -1))
			return true
		})
		return out
	case "exists":
		r := false
		in.each(t, tr, func(int) bool {
			r = in.bool(t.args[1])
			return !r
		})
		return r
	case "sum":
		s := int64(0)
		in.each(t, tr, func(int) bool {
			s += in.asInt(in.node(t.args[1], -1))
			return true
		})
		return s
	case "first":
		var r V = botV{}
		in.each(t, tr, func(i int) bool {
			if in.bool(t.args[1]) {
				f := in.env[binderHeight(t)]
				switch t.s {
				case "el":
					r = f.el
				case "ix":
					r = f.ix
				default:
					r = f.key
					if r == nil {
						r = botV{}
					}
				}
				return false
			}
			return true
		})
		if x, ok := r.(tokV); ok && x.typ == nil && t.typ != nil {
			return in.gen(x.h, t.typ, "el", x.d)
		}
		return r
	case "lastof":
		var r V = botV{}
		in.each(t, tr, func(int) bool {
			if v := in.node(t.args[1], -1); v != (keepV{}) {
				if _, ok := v.(keepV); !ok {
					r = v
				}
			}
			return true
		})
		return r
	case "lastis":
		r := false
		in.each(t, tr, func(int) bool {
			if in.bool(t.args[1]) {
				r = in.bool(t.args[2])
			}
			return true
		})
		return r
	case "mealy", "fsm":
		return in.fold(t, tr)
	case "sorted":
		return in.sorted(t, tr)
	case "pre":
		return in.pre(t.args[0], t.args[1])
	case "bcall":
		if t.s == "pre" {
			v := in.pre(t.args[0], t.args[1])
			if b, ok := v.(bool); ok {
				return b
			}
			return in.unit(in.hash(v), "bool") < in.rBool
		}
		if t.s == "var" {
			v := in.node(t.args[0], tr)
			if b, ok := v.(bool); ok {
				return b
			}
			return in.unit(in.hash(v), "bool") < in.rBool
		}
		as := in.args(t, tr)
		op, s, _ := strings.Cut(t.s, ":")
		if op == "field" {
			v := in.fieldOf(as[0], s, types.Typ[types.Bool])
			if b, ok := v.(bool); ok {
				return b
			}
			return in.unit(in.hash(v), "bool") < in.rBool
		}
		if op == "call" {
			if f := meaning[s]; f != nil {
				if v := f(in, as); v != nil {
					if b, ok := v.(bool); ok {
						return b
					}
				}
			}
		}
		if op == "get" || op == "index" {
			v := in.access(op, as, types.Typ[types.Bool])
			if b, ok := v.(bool); ok {
				return b
			}
			return in.unit(in.hash(v), "bool") < in.rBool
		}
		id := in.ident(op, s, as)
		if b, ok := in.given[id]; ok {
			return b // the same question gets the same answer
		}
		b, ok := in.force[t]
		if !ok || in.unit(uint64(t.id), "force") >= 0.9 {
			b = in.unit(id, "bool") < in.rBool
		}
		if in.force != nil {
			in.given[id] = b
		}
		return b
	}
	as := in.args(t, tr)
	switch t.op {
	case "struct":
		return &structV{t.s, as}
	case "field":
		return in.fieldOf(as[0], t.s, t.typ)
	case "seq":
		return seqV(as)
	case "cat":
		out := seqV{}
		for _, a := range as {
			out = append(out, in.asSeq(a)...)
		}
		return out
	case "scat":
		s := ""
		for _, a := range as {
			s += in.asStr(a)
		}
		return s
	case "pair":
		return pairV{as[0], as[1]}
	case "pkey":
		if p, ok := as[0].(pairV); ok {
			return p.k
		}
	case "mapof":
		m := &mapV{ix: map[uint64]int{}}
		for _, p := range in.asSeq(as[0]) {
			if x, ok := p.(pairV); ok {
				in.mapSet(m, x.k, x.v)
			} else if x, ok := p.(*structV); ok && len(x.vs) == 2 {
				in.mapSet(m, x.vs[0], x.vs[1])
			}
		}
		return m
	case "entries":
		m := in.asMap(as[0])
		out := seqV{}
		for _, i := range in.order(m) {
			out = append(out, pairV{m.ks[i], m.vs[i]})
		}
		return out
	case "mdom":
		m := in.asMap(as[0])
		return conV{h: h64(hs("mdom"), in.hash(m)), op: "mdom", as: []V{m}}
	case "has":
		m := in.asMap(as[0])
		_, ok := m.ix[in.hash(as[1])]
		if !ok && in.pass == 1 && m.h != 0 && len(in.asked[m.h]) < 8 {
			in.asked[m.h] = append(in.asked[m.h], as[1])
		}
		return ok
	case "get", "index":
		return in.access(t.op, as, t.typ)
	case "len":
		switch t.s {
		case "map":
			return int64(len(in.asMap(as[0]).ks))
		case "str":
			return int64(len(in.asStr(as[0])))
		}
		if s, ok := as[0].(string); ok {
			return int64(len(s))
		}
		if c, ok := as[0].(conV); ok && c.op == "mdom" {
			return int64(len(c.as[0].(*mapV).ks))
		}
		if m, ok := as[0].(*mapV); ok {
			return int64(len(m.ks))
		}
		if x, ok := as[0].(tokV); ok && x.typ != nil {
			// bytes
			return int64(h64(in.seed, x.h, 99) % 4)
		}
		return int64(len(in.asSeq(as[0])))
	case "lin":
		parts := strings.Split(t.s, ",")
		s, _ := strconv.ParseInt(parts[0], 10, 64)
		for i, a := range as {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			s += k * in.asInt(a)
		}
		return s
	case "mul":
		if len(as) == 2 {
			return in.asInt(as[0]) * in.asInt(as[1])
		}
	case "arith":
		if len(as) == 2 {
			x, y := in.asInt(as[0]), in.asInt(as[1])
			switch t.s {
			case "/":
				if y != 0 {
					return x / y
				}
			case "%":
				if y != 0 {
					return x % y
				}
			}
		}
	case "lt":
		c, _ := strconv.ParseInt(t.s, 10, 64)
		return in.asInt(as[0]) < c
	case "slt":
		return in.asStr(as[0]) < in.asStr(as[1])
	case "eq":
		if _, ok := as[1].(nilV); ok {
			return in.isNil(as[0])
		}
		return in.equal(as[0], as[1])
	case "eq2":
		r := in.equal(as[0], as[1])
		if !r && in.pass == 1 && in.nmet < 40 {
			x, ok1 := as[0].(string)
			y, ok2 := as[1].(string)
			if ok1 && ok2 {
				in.nmet++
				in.met[x] = append(in.met[x], y)
				in.met[y] = append(in.met[y], x)
			}
		}
		return r
	case "prefix":
		return strings.HasPrefix(in.asStr(as[0]), in.asStr(as[1]))
	case "suffix":
		return strings.HasSuffix(in.asStr(as[0]), in.asStr(as[1]))
	case "contains":
		return strings.Contains(in.asStr(as[0]), in.asStr(as[1]))
	case "cutb":
		b, _, _ := strings.Cut(in.asStr(as[0]), in.asStr(as[1]))
		return b
	case "cuta":
		_, a, _ := strings.Cut(in.asStr(as[0]), in.asStr(as[1]))
		return a
	case "drop":
		k, _ := strconv.Atoi(t.s)
		if s := in.asStr(as[0]); k <= len(s) {
			return s[k:]
		}
		return botV{}
	case "chop":
		return strings.TrimSuffix(in.asStr(as[0]), in.asStr(as[1]))
	case "slice":
		lo := in.asInt(as[1])
		if t.s == "str" {
			s := in.asStr(as[0])
			hi := int64(len(s))
			if _, ok := as[2].(nilV); !ok {
				hi = in.asInt(as[2])
			}
			if lo < 0 || lo > hi || hi > int64(len(s)) {
				return botV{}
			}
			return s[lo:hi]
		}
		s := in.asSeq(as[0])
		hi := int64(len(s))
		if _, ok := as[2].(nilV); !ok {
			hi = in.asInt(as[2])
		}
		if lo < 0 || lo > hi || hi > int64(len(s)) {
			return botV{}
		}
		return s[lo:hi]
	case "upd":
		s := append(seqV{}, in.asSeq(as[0])...)
		i := in.asInt(as[1])
		if i < 0 || i >= int64(len(s)) {
			return botV{}
		}
		s[i] = as[2]
		return s
	case "fill":
		n := in.asInt(as[0])
		if n < 0 || n > 50 {
			panic(noModel{"fill"})
		}
		s := make(seqV, n)
		for i := range s {
			s[i] = as[1]
		}
		return s
	case "irange":
		n := in.asInt(as[0])
		if n > 50 {
			panic(noModel{"irange"})
		}
		s := seqV{}
		for i := int64(0); i < n; i++ {
			s = append(s, i)
		}
		return s
	case "runes":
		s := seqV{}
		for _, r := range in.asStr(as[0]) {
			s = append(s, int64(r))
		}
		return s
	case "itoa":
		return strconv.FormatInt(in.asInt(as[0]), 10)
	case "fmtlit":
		return in.asStr(as[0])
	case "is":
		return in.dynType(as[0]) == t.s
	case "call":
		if f := meaning[t.s]; f != nil {
			if v := f(in, as); v != nil {
				return v
			}
		}
		return in.gen(in.ident(t.op, t.s, as), t.typ, poolKey(t), 0)
	case "erris":
		return in.unit(in.ident(t.op, t.s, as), "bool") < in.rBool
	case "re":
		return conV{h: in.ident(t.op, t.s, as), op: "re", as: as}
	case "lines", "rows", "walk":
		return tokV{in.ident(t.op, t.s, as), nil, 0}
	case "err", "eff", "ptr", "obj", "objsite", "mslot", "fn", "closure", "global", "fa", "ia", "ea", "ifc", "other", "fnid":
		return conV{h: in.ident(t.op, t.s, as), op: t.op, as: as}
	case "param", "gval", "flagval", "line", "row", "tok", "deref", "as", "walkpath", "walkinfo", "walkerr", "rowerr", "tokerr", "scanerr", "rec":
		return in.gen(in.ident(t.op, t.s, as), t.typ, poolKey(t), 0)
	}
	return in.gen(in.ident(t.op, t.s, as), t.typ, poolKey(t), 1)
}

func (in *interp) access(op string, as []V, typ types.Type) V {
	if op == "get" {
		m := in.asMap(as[0])
		if i, ok := m.ix[in.hash(as[1])]; ok {
			v := m.vs[i]
			if x, ok := v.(tokV); ok && x.typ == nil && typ != nil {
				return in.gen(x.h, typ, "el", x.d)
			}
			return v
		}
		return botV{}
	}
	i := in.asInt(as[1])
	if s, ok := as[0].(string); ok {
		if i >= 0 && i < int64(len(s)) {
			return int64(s[i])
		}
		return botV{}
	}
	s := in.asSeq(as[0])
	if i < 0 || i >= int64(len(s)) {
		return botV{}
	}
	v := s[i]
	if x, ok := v.(tokV); ok && x.typ == nil && typ != nil {
		return in.gen(x.h, typ, "el", x.d)
	}
	return v
}

func (in *interp) dynType(v V) string {
	if _, ok := v.(nilV); ok || len(in.types) == 0 {
		return ""
	}
	i := int(h64(in.seed, in.hash(v), 41) % uint64(len(in.types)+1))
	if i == len(in.types) {
		return ""
	}
	return in.types[i]
}

func (in *interp) bool(n *Node) bool {
	v := in.node(n, -1)
	if b, ok := v.(bool); ok {
		return b
	}
	return in.unit(in.hash(v), "bool") < in.rBool
}

func (in *interp) fold(t *Term, tr int) V {
	ks, ps, _ := strings.Cut(t.s, ";")
	k, _ := strconv.Atoi(ks)
	pos, _ := strconv.Atoi(ps)
	cur := map[string]V{}
	for i := 0; i < k; i++ {
		cur[strconv.Itoa(100+i)] = in.node(t.args[1+i], -1)
	}
	h := binderHeight(t)
	in.each(t, tr, func(int) bool {
		in.env[h].lv = cur
		next := map[string]V{}
		for i := 0; i < k; i++ {
			next[strconv.Itoa(100+i)] = in.node(t.args[1+k+i], -1)
		}
		cur = next
		return true
	})
	return cur[strconv.Itoa(100+pos)]
}

func (in *interp) sorted(t *Term, tr int) V {
	v := in.node(t.args[0], tr)
	s := append(seqV{}, in.asSeq(v)...)
	h := binderHeight(t)
	old := in.env[h]
	defer func() { in.env[h] = old }()
	less := func(a, b V) bool {
		in.push(h, &frame1{sa: a, sb: b})
		return in.bool(t.args[1])
	}
	// insertion sort: stable, and terminates for any relation
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(s[j], s[j-1]); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

func (in *interp) pre(fin, ix *Node) V {
	k := in.asInt(in.node(ix, -1))
	if k < 0 {
		k = 0
	}
	return in.node(fin, int(k))
}

// meaning of library functions that are interpreted
var meaning = map[string]func(in *interp, as []V) V{}

func init() {
	s1 := func(name string, f func(string) V) {
		meaning[name+"#0"] = func(in *interp, as []V) V { return f(in.asStr(as[0])) }
	}
	s2 := func(name string, f func(a, b string) V) {
		meaning[name+"#0"] = func(in *interp, as []V) V { return f(in.asStr(as[0]), in.asStr(as[1])) }
	}
	strs := func(ss []string) V {
		out := seqV{}
		for _, s := range ss {
			out = append(out, s)
		}
		return out
	}
	s1("strings.ToLower", func(s string) V { return strings.ToLower(s) })
	s1("strings.ToUpper", func(s string) V { return strings.ToUpper(s) })
	s1("strings.TrimSpace", func(s string) V { return strings.TrimSpace(s) })
	s1("strings.Fields", func(s string) V { return strs(strings.Fields(s)) })
	s2("strings.Trim", func(a, b string) V { return strings.Trim(a, b) })
	s2("strings.TrimLeft", func(a, b string) V { return strings.TrimLeft(a, b) })
	s2("strings.TrimRight", func(a, b string) V { return strings.TrimRight(a, b) })
	s2("strings.TrimPrefix", func(a, b string) V { return strings.TrimPrefix(a, b) })
	s2("strings.TrimSuffix", func(a, b string) V { return strings.TrimSuffix(a, b) })
	s2("strings.Index", func(a, b string) V { return int64(strings.Index(a, b)) })
	s2("strings.LastIndex", func(a, b string) V { return int64(strings.LastIndex(a, b)) })
	s2("strings.Split", func(a, b string) V { return strs(strings.Split(a, b)) })
	s2("strings.Count", func(a, b string) V { return int64(strings.Count(a, b)) })
	s2("strings.IndexAny", func(a, b string) V { return int64(strings.IndexAny(a, b)) })
	s2("strings.LastIndexAny", func(a, b string) V { return int64(strings.LastIndexAny(a, b)) })
	s2("strings.SplitAfter", func(a, b string) V { return strs(strings.SplitAfter(a, b)) })
	s1("strings.ToTitle", func(s string) V { return strings.ToTitle(s) })
	s1("path/filepath.ToSlash", func(s string) V { return filepath.ToSlash(s) })
	s1("path/filepath.FromSlash", func(s string) V { return filepath.FromSlash(s) })
	meaning["strings.LastIndexByte#0"] = func(in *interp, as []V) V {
		return int64(strings.LastIndexByte(in.asStr(as[0]), byte(in.asInt(as[1]))))
	}
	meaning["strings.Replace#0"] = func(in *interp, as []V) V {
		return strings.Replace(in.asStr(as[0]), in.asStr(as[1]), in.asStr(as[2]), int(in.asInt(as[3])))
	}
	meaning["strconv.Atoi#0"] = func(in *interp, as []V) V {
		k, err := strconv.Atoi(in.asStr(as[0]))
		if err != nil {
			k = 0
		}
		return int64(k)
	}
	meaning["strconv.Atoi#1"] = func(in *interp, as []V) V {
		if _, err := strconv.Atoi(in.asStr(as[0])); err == nil {
			return nilV{}
		}
		return conV{h: hs("atoi"), op: "err"}
	}
	fn := func(name string, f func(s string, p func(rune) bool) V) {
		meaning["strings."+name+"#0"] = func(in *interp, as []V) V {
			bad := false
			v := f(in.asStr(as[0]), func(r rune) bool {
				b, ok := in.call(as[1], int64(r)).(bool)
				if !ok {
					bad = true
				}
				return b
			})
			if bad {
				return nil
			}
			return v
		}
	}
	fn("FieldsFunc", func(s string, p func(rune) bool) V { return strs(strings.FieldsFunc(s, p)) })
	fn("TrimFunc", func(s string, p func(rune) bool) V { return strings.TrimFunc(s, p) })
	fn("TrimLeftFunc", func(s string, p func(rune) bool) V { return strings.TrimLeftFunc(s, p) })
	fn("TrimRightFunc", func(s string, p func(rune) bool) V { return strings.TrimRightFunc(s, p) })
	fn("IndexFunc", func(s string, p func(rune) bool) V { return int64(strings.IndexFunc(s, p)) })
	fn("LastIndexFunc", func(s string, p func(rune) bool) V { return int64(strings.LastIndexFunc(s, p)) })
	fn("ContainsFunc", func(s string, p func(rune) bool) V { return strings.ContainsFunc(s, p) })
	meaning["unicode.IsSpace#0"] = func(in *interp, as []V) V { return unicode.IsSpace(rune(in.asInt(as[0]))) }
	meaning["unicode.IsDigit#0"] = func(in *interp, as []V) V { return unicode.IsDigit(rune(in.asInt(as[0]))) }
	meaning["unicode.IsLetter#0"] = func(in *interp, as []V) V { return unicode.IsLetter(rune(in.asInt(as[0]))) }
	s2("strings.EqualFold", func(a, b string) V { return strings.EqualFold(a, b) })
	s2("strings.Compare", func(a, b string) V { return int64(strings.Compare(a, b)) })
	s2("strings.ContainsAny", func(a, b string) V { return strings.ContainsAny(a, b) })
	meaning["strings.SplitN#0"] = func(in *interp, as []V) V {
		return strs(strings.SplitN(in.asStr(as[0]), in.asStr(as[1]), int(in.asInt(as[2]))))
	}
	meaning["strings.ReplaceAll#0"] = func(in *interp, as []V) V {
		return strings.ReplaceAll(in.asStr(as[0]), in.asStr(as[1]), in.asStr(as[2]))
	}
	meaning["strings.Join#0"] = func(in *interp, as []V) V {
		var ss []string
		for _, v := range in.asSeq(as[0]) {
			ss = append(ss, in.asStr(v))
		}
		return strings.Join(ss, in.asStr(as[1]))
	}
	meaning["strings.Repeat#0"] = func(in *interp, as []V) V {
		if k := in.asInt(as[1]); k >= 0 && k < 200 {
			return strings.Repeat(in.asStr(as[0]), int(k))
		}
		return nil
	}
	s1("path.Base", func(s string) V { return path.Base(s) })
	s1("path.Clean", func(s string) V { return path.Clean(s) })
	s1("path.Dir", func(s string) V { return path.Dir(s) })
	s1("path.Ext", func(s string) V { return path.Ext(s) })
	s1("path/filepath.Base", func(s string) V { return filepath.Base(s) })
	s1("path/filepath.Clean", func(s string) V { return filepath.Clean(s) })
	s1("path/filepath.Dir", func(s string) V { return filepath.Dir(s) })
	s1("path/filepath.Ext", func(s string) V { return filepath.Ext(s) })
	s1("path/filepath.IsAbs", func(s string) V { return filepath.IsAbs(s) })
	join := func(f func(...string) string) func(in *interp, as []V) V {
		return func(in *interp, as []V) V {
			var ss []string
			for _, a := range as {
				if q, ok := a.(seqV); ok {
					for _, v := range q {
						ss = append(ss, in.asStr(v))
					}
				} else {
					ss = append(ss, in.asStr(a))
				}
			}
			return f(ss...)
		}
	}
	compiled := map[string]*regexp.Regexp{}
	re := func(name string, f func(in *interp, re *regexp.Regexp, as []V) V) {
		meaning["re."+name+"#0"] = func(in *interp, as []V) V {
			c, ok := as[0].(conV)
			if !ok || c.op != "re" {
				return nil
			}
			p := in.asStr(c.as[0])
			r, ok := compiled[p]
			if !ok {
				r, _ = regexp.Compile(p)
				compiled[p] = r
			}
			if r == nil {
				return nil
			}
			return f(in, r, as)
		}
	}
	re("Match", func(in *interp, r *regexp.Regexp, as []V) V { return r.MatchString(in.asStr(as[1])) })
	re("FindStringSubmatch", func(in *interp, r *regexp.Regexp, as []V) V {
		return strs(r.FindStringSubmatch(in.asStr(as[1])))
	})
	re("ReplaceAllString", func(in *interp, r *regexp.Regexp, as []V) V {
		return r.ReplaceAllString(in.asStr(as[1]), in.asStr(as[2]))
	})
	re("Split", func(in *interp, r *regexp.Regexp, as []V) V {
		return strs(r.Split(in.asStr(as[1]), int(in.asInt(as[2]))))
	})
	meaning["path.Join#0"] = join(path.Join)
	meaning["path/filepath.Join#0"] = join(filepath.Join)
}

// ---- telling two nodes apart ----

type interpStats struct {
	models, failed, ticks, watched int
	unseen                         []*Term
}

// setUp starts an interpretation
func (in *interp) setUp(seed uint64) {
	in.seed = seed
	in.memo = map[*Node]V{}
	in.memoT = map[*Term]V{}
	in.hashes = map[*lazyV]uint64{}
	in.env = [64]*frame1{}
	in.force, in.given = nil, nil
	in.steps, in.limit = 0, 400000
	r := in.rnd(0, "setup")
	in.rErr = []float64{0, 0.05, 0.15, 0.5}[r.Intn(4)]
	in.rNil = []float64{0.1, 0.5, 0.9}[r.Intn(3)]
	in.rBool = []float64{0.2, 0.5, 0.5, 0.8}[r.Intn(4)]
	in.rLen = []int{1, 2, 3, 3}[r.Intn(4)]
	in.fav = map[string]V{}
	in.favLen = map[string]int{}
	ks := make([]string, 0, len(in.pools))
	for k := range in.pools {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := in.pools[k]
		if r.Intn(3) > 0 {
			in.fav[k] = p[r.Intn(len(p))]
		}
	}
}

// value of a node, false if this interpretation gives it none
func (in *interp) value(n *Node) (v V, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(noModel); is {
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	v = in.node(n, -1)
	in.hash(v)
	return v, true
}

var interpSeed uint64 = 1

// distinguish looks for an interpretation under which the nodes differ
func distinguish(x, y *Node, models, budget int) (witness uint64, found bool, st interpStats) {
	in := &interp{}
	in.gather(x, y)
	t0 := time.Now()
	defer func() { st.ticks = in.ticks }()
	guide := pathsApart(x, y, 40)
	in.watch = oneSided(x, y)
	for i := 0; i < models; i++ {
		if in.ticks > budget || i%16 == 15 && time.Since(t0) > 30*time.Second {
			break
		}
		seed := h64(interpSeed, uint64(i/2))
		if i%2 == 0 {
			in.pass, in.asked, in.met, in.nmet = 1, map[uint64][]V{}, map[string][]string{}, 0
		} else {
			in.pass = 2
		}
		in.setUp(seed)
		if len(guide) > 0 && i%4 >= 2 {
			in.follow(guide[(i/4)%len(guide)])
		}
		a, ok := in.value(x)
		if !ok {
			st.failed++
			continue
		}
		b, ok := in.value(y)
		if !ok {
			st.failed++
			continue
		}
		st.models++
		if !in.agree(a, b) {
			return in.seed, true, st
		}
	}
	for t, w := range in.watch {
		st.watched++
		if w&4 == 0 || isBool(t) && w&3 != 3 {
			st.unseen = append(st.unseen, t)
		}
	}
	return 0, false, st
}

func isBool(t *Term) bool {
	return t.typ == types.Typ[types.Bool] || t.op == "bcall" || t.op == "lt" || t.op == "slt" || t.op == "eq" || t.op == "eq2" || t.op == "prefix" ||
		t.op == "suffix" || t.op == "contains" || t.op == "exists" || t.op == "has" || t.op == "is" || t.op == "erris" || t.op == "lastis"
}

// oneSided: the smallest terms that only one of the nodes has
func oneSided(x, y *Node) map[*Term]uint8 {
	tx, ty := termsIn(x), termsIn(y)
	out := map[*Term]uint8{}
	side := func(a, b map[*Term]bool) {
		for t := range a {
			if t.op == "eq" && t.args[1] == Nil && t.args[0].leaf != nil && t.args[0].leaf.op == "get" {
				continue // what is found in a map is seldom nil
			}
			if b[t] || t.op == "c" || t.op == "bot" || t.op == "keep" || t.op == "same" || isVarOp(t.op) {
				continue
			}
			minimal := true
			for _, g := range t.args {
				for _, u := range topTerms(g) {
					if !b[u] && u.op != "c" && !isVarOp(u.op) && !(measure(t) && u.op == "len") {
						minimal = false
					}
				}
			}
			if minimal {
				out[t] = 0
			}
		}
	}
	side(tx, ty)
	side(ty, tx)
	var shapes []*Term
	for t := range out {
		switch t.op {
		case "pre", "lastof", "mealy", "fsm", "first", "lam", "sum", "cat", "comp":
			// how the state of a loop is put
			delete(out, t)
		case "bcall":
			if t.s == "pre" {
				delete(out, t)
			}
		case "eq", "lt":
			for _, g := range t.args {
				if g.leaf != nil && g.leaf.op == "pre" {
					delete(out, t)
				}
			}
		case "struct", "seq", "pair", "mapof", "upd", "sorted", "slice", "scat", "lin":
			shapes = append(shapes, t)
		}
	}
	if len(shapes) > 20 {
		for _, t := range shapes {
			delete(out, t)
		}
	}
	return out
}

// measure: a comparison with a number
func measure(t *Term) bool { return t.op == "lt" || t.op == "eq" }

// topTerms: the conditions and leaves of a node
func topTerms(n *Node) []*Term {
	var out []*Term
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.leaf != nil {
			out = append(out, n.leaf)
			return
		}
		out = append(out, n.atom)
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return out
}

func termsIn(n *Node) map[*Term]bool {
	out := map[*Term]bool{}
	anyTerm(n, func(t *Term) bool { out[t] = true; return false })
	return out
}

func (in *interp) agree(a, b V) bool { return in.hash(a) == in.hash(b) || in.equal(a, b) }

type lit struct {
	t *Term
	v bool
}

var traceGen = os.Getenv("TRACEGEN") != ""
