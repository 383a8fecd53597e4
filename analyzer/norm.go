package main

// Smart constructors: every term is built through these, so that equal values
// written differently get the same normal form.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// opaque builds op(args) with conditions of the arguments pushed out
func opaque(op, s string, args []*Node, typ types.Type) *Node {
	simple := true
	for _, a := range args {
		if a.leaf == nil {
			simple = false
		}
	}
	mkv := func(as []*Node) *Node {
		t := mkTerm(op, s, as, typ)
		if isBoolType(typ) && !isAtom(t) {
			return atomNode(mkTerm("bcall", op+":"+s, as, nil))
		}
		return valueNode(t)
	}
	if simple {
		for _, a := range args {
			if a == Bot {
				return Bot
			}
		}
		return mkv(args)
	}
	return apply(args, func(ts []*Term) *Node {
		as := make([]*Node, len(ts))
		for i, t := range ts {
			as[i] = leafOf(t)
		}
		return mkv(as)
	})
}

// rebuild applies the constructor of t to new arguments
func rebuild(t *Term, args []*Node) *Node {
	switch t.op {
	case "struct":
		return mkStruct(t.s, args)
	case "field":
		return fieldOf(args[0], t.s, t.typ)
	case "eq", "eq2":
		if t.op == "eq" {
			return eqNode(args[0], args[1])
		}
		return eqNode(args[0], args[1])
	case "lt":
		c, _ := strconv.ParseInt(t.s, 10, 64)
		return ltConst(args[0], c)
	case "lin":
		return linRebuild(t, args)
	case "slt":
		return strLess(args[0], args[1])
	case "len":
		return lenOf(args[0], t.s)
	case "scat":
		return concat(args...)
	case "seq":
		return seqLit(args...)
	case "cat":
		return seqCat(args...)
	case "index":
		return indexOf(args[0], args[1], t.typ)
	case "slice":
		return sliceOf(args[0], args[1], args[2], t.s)
	case "mapof":
		return mapOf(args[0])
	case "has":
		return mapHas(args[0], args[1])
	case "get":
		return mapGetRaw(args[0], args[1], t.typ)
	case "mdom":
		return mapDom(args[0])
	case "entries":
		return entriesOf(args[0])
	case "pkey":
		return pairKey(args[0])
	case "prefix", "suffix", "contains":
		return strTest(t.op, args[0], args[1])
	case "cutb", "cuta":
		return cutPart(t.op, args[0], args[1])
	case "drop":
		return dropOf(args[0], t.s)
	case "erris":
		return errIs(args[0], args[1])
	case "is":
		return typeIs(args[0], t.s)
	case "pre":
		return preNode(args[0], args[1], t.typ, nil)
	case "upd":
		return seqUpd(args[0], args[1], args[2])
	case "call":
		if f := callFolders[t.s]; f != nil {
			if r := f(args, t.typ); r != nil {
				return r
			}
		}
	case "bcall":
		if strings.HasPrefix(t.s, "call:") {
			if f := callFolders[t.s[5:]]; f != nil {
				if r := f(args, types.Typ[types.Bool]); r != nil {
					return r
				}
			}
		}
		if t.s == "pre" {
			return preNode(args[0], args[1], types.Typ[types.Bool], nil)
		}
		if t.s == "var" {
			// a boolean loop variable that has been given a value
			return apply1(args[0], func(x *Term) *Node {
				if x == termTrue || x == termFalse {
					return leafOf(x)
				}
				if isAtom(x) {
					return atomNode(x)
				}
				return atomNode(mkTerm("bcall", "var", []*Node{leafOf(x)}, nil))
			})
		}
		return apply(args, func(ts []*Term) *Node {
			as := make([]*Node, len(ts))
			for i, x := range ts {
				as[i] = leafOf(x)
			}
			return atomNode(mkTerm("bcall", t.s, as, nil))
		})
	}
	return opaque(t.op, t.s, args, t.typ)
}

// folders for calls with simplifications (filled in lib.go)
var callFolders = map[string]func(args []*Node, typ types.Type) *Node{}

// ---- structs ----

func tagKey(tag, name string) string {
	for _, k := range []string{"json", "toml", "yaml", "xml"} {
		if v := structTag(tag, k); v != "" && v != "-" {
			return v
		}
	}
	return name
}

func structTag(tag, key string) string {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		if tag == "" {
			break
		}
		i = 0
		for i < len(tag) && tag[i] != ':' && tag[i] != '"' {
			i++
		}
		if i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			break
		}
		name := tag[:i]
		tag = tag[i+1:]
		i = 1
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(tag) {
			break
		}
		q := tag[:i+1]
		tag = tag[i+1:]
		if name == key {
			v, _ := strconv.Unquote(q)
			return v
		}
	}
	return ""
}

var keyCache = map[*types.Struct][]string{}

// fieldKeys names the fields of a struct by what is observable of them: the
// tag they are (de)serialised with, their exported name, or else their type
func fieldKeys(st *types.Struct) []string {
	if k, ok := keyCache[st]; ok {
		return k
	}
	var out []string
	seen := map[string]int{}
	peer := structPeer[st]
	if peer != nil {
		keyCache[st] = make([]string, st.NumFields()) // of a recursive type
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k := tagKey(st.Tag(i), "")
		if k == "" {
			switch {
			case f.Embedded():
				k = "@" + typeShape(f.Type(), 2)
			case f.Exported():
				k = f.Name()
			case peer != nil && fieldNamed(peer, f.Name()) != nil:
				k = "." + f.Name()
			case peer != nil && unpaired(st, peer) != unpaired(peer, st):
				k = "+" + f.Name()
				extraFields = true
			default:
				k = "~" + typeShape(f.Type(), 0)
			}
		}
		k = strings.ReplaceAll(k, "|", "¦")
		if n := seen[k]; n > 0 {
			seen[k]++
			k = k + "'" + strconv.Itoa(n)
		} else {
			seen[k] = 1
		}
		out = append(out, k)
	}
	keyCache[st] = out
	return out
}

var (
	// structPeer: the struct type of the same name in the other tree
	structPeer  = map[*types.Struct]*types.Struct{}
	inOrder     = map[*types.Struct]*types.Struct{}
	extraFields bool
)

func fieldNamed(st *types.Struct, name string) *types.Var {
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name && !f.Embedded() {
			return f
		}
	}
	return nil
}

// unpaired: the types of the unexported fields only st has
func unpaired(st, peer *types.Struct) string {
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); !f.Exported() && !f.Embedded() && tagKey(st.Tag(i), "") == "" && fieldNamed(peer, f.Name()) == nil {
			out = append(out, typeShape(f.Type(), 0))
		}
	}
	return strings.Join(out, "|")
}

// canon: the struct with its fields in the order the reference has them, where
// that cannot be observed
func canon(st *types.Struct) *types.Struct {
	if st == nil {
		return nil
	}
	if x, ok := inOrder[st]; ok {
		return x
	}
	inOrder[st] = st
	peer := structPeer[st]
	if peer == nil || !fromRepo[st] {
		return st
	}
	keys, want := fieldKeys(st), fieldKeys(peer)
	if strings.Join(keys, "|") == strings.Join(want, "|") {
		return st
	}
	at := map[string]int{}
	for i, k := range keys {
		at[k] = i
		if st.Tag(i) != "" {
			return st
		}
	}
	var fs []*types.Var
	var ks []string
	used := map[int]bool{}
	add := func(i int) {
		used[i] = true
		fs = append(fs, st.Field(i))
		ks = append(ks, keys[i])
	}
	for _, k := range want {
		if i, ok := at[k]; ok {
			add(i)
		}
	}
	for i := range keys {
		if !used[i] {
			add(i)
		}
	}
	x := types.NewStruct(fs, nil)
	keyCache[x] = ks
	inOrder[st], inOrder[x] = x, x
	return x
}

var fromRepo = map[*types.Struct]bool{}

// pairStructs finds the struct types that both trees have
func pairStructs(p *program) {
	byName := map[string][2]*types.Struct{}
	for _, pk := range p.raw {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			k := plainName(pk.PkgPath) + "." + n
			x := byName[k]
			if strings.Contains(pk.PkgPath, "/internal/verifspec") {
				x[1] = st
			} else {
				x[0] = st
				fromRepo[st] = true
			}
			byName[k] = x
		}
	}
	for _, x := range byName {
		if x[0] != nil && x[1] != nil && x[0] != x[1] {
			structPeer[x[0]], structPeer[x[1]] = x[1], x[0]
		}
	}
}

// withoutExtras drops the fields that only one of the trees has
func withoutExtras(n *Node) *Node {
	if !extraFields {
		return n
	}
	has := func(t *Term) bool { return t.op == "struct" && strings.Contains("|"+t.s, "|+") }
	if !anyTerm(n, has) {
		return n
	}
	return rewriteTerms(n, func(t *Term) *Term {
		if !has(t) {
			return t
		}
		var ks []string
		var as []*Node
		for i, k := range strings.Split(t.s, "|") {
			if !strings.HasPrefix(k, "+") {
				ks = append(ks, k)
				as = append(as, t.args[i])
			}
		}
		if l := mkStruct(strings.Join(ks, "|"), as).leaf; l != nil {
			return l
		}
		return t
	})
}

// typeShape describes a type without the names of unexported types
func typeShape(t types.Type, depth int) string {
	switch u := t.(type) {
	case *types.Alias:
		return typeShape(types.Unalias(t), depth)
	case *types.Named:
		if u.Obj().Exported() || u.Obj().Pkg() == nil {
			return types.TypeString(t, func(p *types.Package) string { return p.Name() })
		}
		if st, ok := u.Underlying().(*types.Struct); ok {
			if depth > 3 {
				return "struct"
			}
			return "struct{" + strings.Join(fieldKeys(st), ",") + "}"
		}
		return typeShape(u.Underlying(), depth+1)
	case *types.Pointer:
		return "*" + typeShape(u.Elem(), depth)
	case *types.Slice:
		return "[]" + typeShape(u.Elem(), depth)
	case *types.Array:
		return "[" + strconv.FormatInt(u.Len(), 10) + "]" + typeShape(u.Elem(), depth)
	case *types.Map:
		return "map[" + typeShape(u.Key(), depth) + "]" + typeShape(u.Elem(), depth)
	case *types.Basic:
		return u.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func mkStruct(keys string, args []*Node) *Node {
	if len(args) > 0 {
		allBot := true
		for _, a := range args {
			if a != Bot {
				allBot = false
			}
		}
		if allBot {
			return Bot
		}
		// eta: a struct made of all fields of one value is that value
		if l := args[0].leaf; l != nil && l.op == "field" && l.args[0].leaf != nil && l.args[0].leaf.st != nil {
			base := l.args[0].leaf
			if strings.Join(fieldKeys(base.st), "|") == keys {
				ok := true
				ks := strings.Split(keys, "|")
				for i, a := range args {
					if a.leaf == nil || a.leaf.op != "field" || a.leaf.args[0] != l.args[0] || a.leaf.s != ks[i] {
						if fieldOf(l.args[0], ks[i], base.st.Field(i).Type()) != a {
							ok = false
							break
						}
					}
				}
				if ok {
					return leafOf(base)
				}
			}
		}
	}
	return leafOf(mkTerm("struct", keys, args, nil))
}

// fieldOf projects field key out of n
func fieldOf(n *Node, key string, typ types.Type) *Node {
	if n.leaf != nil {
		return fieldLeaf(n.leaf, key, typ)
	}
	return apply1(n, func(t *Term) *Node { return fieldLeaf(t, key, typ) })
}

func fieldLeaf(t *Term, key string, typ types.Type) *Node {
	if t.op == "bot" {
		return Bot
	}
	if t.op == "struct" {
		for i, k := range strings.Split(t.s, "|") {
			if k == key {
				return t.args[i]
			}
		}
		return opaque("field", key, []*Node{leafOf(t)}, typ)
	}
	if typ == nil && t.st != nil {
		for i, k := range fieldKeys(t.st) {
			if k == key {
				typ = t.st.Field(i).Type()
			}
		}
	}
	nt := mkTerm("field", key, []*Node{leafOf(t)}, typ)
	if isBoolType(typ) {
		return atomNode(mkTerm("bcall", "field:"+key, []*Node{leafOf(t)}, nil))
	}
	return leafOf(nt)
}

// zeroOf is the zero value of a type
func zeroOf(t types.Type) *Node {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return F
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return leafOf(mkTerm("c", "f:0", nil, nil))
		}
		return Nil
	case *types.Struct:
		u = canon(u)
		args := make([]*Node, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(strings.Join(fieldKeys(u), "|"), args)
	case *types.Slice:
		return emptySeq
	case *types.Array:
		return leafOf(mkTerm("zeroarr", "", nil, nil))
	}
	return Nil
}

// ---- equality ----

func knownNonNil(t *Term) bool {
	switch t.op {
	case "err", "obj", "objf", "fa", "closure", "fn", "global", "ptr", "slot", "ifc":
		return true
	case "struct", "seq", "mapof", "lin", "scat":
		return true
	case "c":
		return t.s != "nil"
	case "call":
		return nonNilCalls[t.s]
	}
	return false
}

// the groups of a match are only looked at where there is one
var nonNilCalls = map[string]bool{"re.FindStringSubmatch#0": true}

func eqNode(a, b *Node) *Node {
	if a == b {
		return T
	}
	return apply2(a, b, eqLeaf)
}

func eqLeaf(x, y *Term) *Node {
	if x == y {
		return T
	}
	bx, by := x == termTrue || x == termFalse, y == termTrue || y == termFalse
	if bx && by {
		return F
	}
	if x.op == "c" && y.op == "c" {
		return F
	}
	if x.op == "c" {
		x, y = y, x
	}
	if y.op == "c" {
		if v, ok := termInt(y); ok {
			if x.op == "index" && x.args[0].leaf != nil && isStringType(x.args[0].leaf.typ) && v >= 0 && v < 128 {
				if k, ok := x.args[1].constInt(); ok && k == 0 {
					return strTest("prefix", x.args[0], Str(string([]byte{byte(v)})))
				}
			}
			return and(not(ltConst(leafOf(x), v)), ltConst(leafOf(x), v+1))
		}
		if y.s == "nil" {
			if knownNonNil(x) {
				return F
			}
			if x.op == "seq" && len(x.args) == 0 {
				return T
			}
			return atomNode(mkTerm("eq", "", []*Node{leafOf(x), leafOf(y)}, nil))
		}
		if y.s == "s:" {
			return ltConst(lenOf(leafOf(x), "str"), 1)
		}
		if x.op == "err" || x.op == "struct" {
			return F
		}
		if x.op == "scat" && strings.HasPrefix(y.s, "s:") {
			// constant ends of a concatenation
			c := y.s[2:]
			first, last := x.args[0], x.args[len(x.args)-1]
			if p, ok := first.constStr(); ok {
				if !strings.HasPrefix(c, p) {
					return F
				}
				return eqNode(concat(x.args[1:]...), Str(c[len(p):]))
			}
			if p, ok := last.constStr(); ok {
				if !strings.HasSuffix(c, p) {
					return F
				}
				return eqNode(concat(x.args[:len(x.args)-1]...), Str(c[:len(c)-len(p)]))
			}
		}
		return atomNode(mkTerm("eq", "", []*Node{leafOf(x), leafOf(y)}, nil))
	}
	if structy(x) && structy(y) {
		ks := structKeys(x)
		if strings.Join(ks, "|") == strings.Join(structKeys(y), "|") {
			r := T
			for _, k := range ks {
				r = and(r, eqNode(fieldLeaf(x, k, nil), fieldLeaf(y, k, nil)))
			}
			return r
		}
	}
	if (x.op == "lin" || y.op == "lin" || x.op == "len" || y.op == "len" || x.op == "ix" || y.op == "ix") || (isIntType(x.typ) && isIntType(y.typ)) {
		d := linSub(leafOf(x), leafOf(y))
		return eqNode(d, Int(0))
	}
	// equality of concatenations: strip common ends
	if x.op == "scat" || y.op == "scat" {
		xs, ys := scatParts(x), scatParts(y)
		i := 0
		for i < len(xs) && i < len(ys) && xs[i] == ys[i] {
			i++
		}
		xs, ys = xs[i:], ys[i:]
		j := 0
		for j < len(xs) && j < len(ys) && xs[len(xs)-1-j] == ys[len(ys)-1-j] {
			j++
		}
		xs, ys = xs[:len(xs)-j], ys[:len(ys)-j]
		if i+j > 0 {
			return eqNode(concat(xs...), concat(ys...))
		}
	}
	// a string is never a proper part of itself
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		if p[0].op == "drop" && p[0].s != "0" && p[0].args[0] == leafOf(p[1]) {
			return F
		}
		if p[0].op == "chop" && p[0].args[0] == leafOf(p[1]) {
			if s, ok := p[0].args[1].constStr(); ok && s != "" {
				return not(strTest("suffix", p[0].args[0], p[0].args[1]))
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return atomNode(mkTerm("eq2", "", []*Node{leafOf(x), leafOf(y)}, nil))
}

func strLess(a, b *Node) *Node {
	if a == b {
		return F
	}
	return apply2(a, b, func(x, y *Term) *Node {
		if x == y {
			return F
		}
		if x.op == "c" && y.op == "c" && strings.HasPrefix(x.s, "s:") && strings.HasPrefix(y.s, "s:") {
			return Bool(x.s < y.s)
		}
		if x.id < y.id {
			return atomNode(mkTerm("slt", "", []*Node{leafOf(x), leafOf(y)}, nil))
		}
		return and(not(atomNode(mkTerm("slt", "", []*Node{leafOf(y), leafOf(x)}, nil))), not(eqLeaf(x, y)))
	})
}

// ---- integers: linear combinations ----

type linear struct {
	c  int64
	co map[*Term]int64
}

func linOf(t *Term) linear {
	if v, ok := termInt(t); ok {
		return linear{c: v}
	}
	if t.op == "lin" {
		l := linear{co: map[*Term]int64{}}
		parts := strings.Split(t.s, ",")
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.co[a.leaf] = k
		}
		return l
	}
	return linear{co: map[*Term]int64{t: 1}}
}

func (l linear) node() *Node {
	ts := make([]*Term, 0, len(l.co))
	for t, k := range l.co {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return Int(l.c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.c == 0 && l.co[ts[0]] == 1 {
		return leafOf(ts[0])
	}
	s := strconv.FormatInt(l.c, 10)
	args := make([]*Node, len(ts))
	for i, t := range ts {
		s += "," + strconv.FormatInt(l.co[t], 10)
		args[i] = leafOf(t)
	}
	return leafOf(mkTerm("lin", s, args, types.Typ[types.Int]))
}

func linComb(a linear, b linear, k int64) linear {
	r := linear{c: a.c + k*b.c, co: map[*Term]int64{}}
	for t, v := range a.co {
		r.co[t] += v
	}
	for t, v := range b.co {
		r.co[t] += k * v
	}
	return r
}

func linAdd(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node { return linComb(linOf(x), linOf(y), 1).node() })
}

func linSub(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node { return linComb(linOf(x), linOf(y), -1).node() })
}

func linNeg(a *Node) *Node { return linSub(Int(0), a) }

func linRebuild(t *Term, args []*Node) *Node {
	parts := strings.Split(t.s, ",")
	c, _ := strconv.ParseInt(parts[0], 10, 64)
	return apply(args, func(ts []*Term) *Node {
		r := linear{c: c}
		for i, x := range ts {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			r = linComb(r, linOf(x), k)
		}
		return r.node()
	})
}

func linDiff(a, b *Node) (*Node, bool) {
	if a.leaf == nil || b.leaf == nil {
		return nil, false
	}
	ok := func(t *Term) bool {
		_, i := termInt(t)
		return i || t.op == "lin" || t.op == "len" || t.op == "ix" || isIntType(t.typ)
	}
	if !ok(a.leaf) || !ok(b.leaf) {
		return nil, false
	}
	return linSub(a, b), true
}

func nonNeg(t *Term) bool {
	switch t.op {
	case "len", "ix":
		return true
	case "sum":
		return true
	case "c":
		v, ok := termInt(t)
		return ok && v >= 0
	}
	return false
}

// lowest: a number that an integer is never below
func lowest(t *Term, depth int) (int64, bool) {
	if v, ok := termInt(t); ok {
		return v, true
	}
	if nonNeg(t) {
		return 0, true
	}
	if depth == 0 {
		return 0, false
	}
	least := func(n *Node, key bool) (int64, bool) {
		m, any := int64(0), false
		ls := leavesOf(n)
		if len(ls) > 8 {
			return 0, false
		}
		for _, l := range ls {
			if l.op == "keep" || l.op == "bot" {
				continue
			}
			v, ok := lowest(l, depth-1)
			if !ok && key && l.op == "key" {
				v, ok = 0, true
			}
			if !ok {
				return 0, false
			}
			if !any || v < m {
				m, any = v, true
			}
		}
		return m, any
	}
	inText := func(n *Node) bool { return n.leaf != nil && n.leaf.op == "runes" }
	switch t.op {
	case "first":
		if t.s == "ix" || t.s == "key" && inText(t.args[0]) {
			return 0, true
		}
	case "lastof":
		return least(t.args[len(t.args)-1], inText(t.args[0]))
	case "pre":
		return least(t.args[0], false)
	case "call":
		if t.s == "strings.Index#0" || t.s == "strings.LastIndex#0" || t.s == "strings.IndexByte#0" {
			return -1, true
		}
	}
	return 0, false
}

// ltConst is n < c
func ltConst(n *Node, c int64) *Node {
	return apply1(n, func(t *Term) *Node {
		l := linOf(t)
		c := c - l.c
		l.c = 0
		b := l.node()
		if v, ok := b.constInt(); ok {
			return Bool(v < c)
		}
		// canonical sign: the first term is counted positively
		if b.leaf.op == "lin" {
			k, _ := strconv.ParseInt(strings.Split(b.leaf.s, ",")[1], 10, 64)
			if k < 0 {
				// b < c  <=>  -b > -c  <=>  !(-b < -c+1)
				return not(atomLt(linNeg(b), -c+1))
			}
			if len(b.leaf.args) == 1 && k > 1 {
				// k*t < c  <=>  t < ceil(c/k)
				q := c / k
				if c%k != 0 && c > 0 {
					q++
				}
				return ltConst(b.leaf.args[0], q)
			}
		}
		return atomLt(b, c)
	})
}

func atomLt(b *Node, c int64) *Node {
	if nonNeg(b.leaf) && c <= 0 {
		return F
	}
	if c < 1 {
		if l, ok := lowest(b.leaf, 4); ok && c <= l {
			return F
		}
	}
	t := b.leaf
	if t.op == "len" && t.args[0].leaf != nil && t.args[0].leaf.op == "call" {
		switch x := t.args[0].leaf; x.s {
		case "strings.SplitN#0", "strings.Split#0":
			if s, ok := x.args[1].constStr(); ok && s != "" {
				k, ok := int64(-1), true
				if x.s == "strings.SplitN#0" {
					k, ok = x.args[2].constInt()
				}
				if ok && k > 0 && c > k {
					return T
				}
				if ok && k != 0 && c <= 1 {
					return F
				}
			}
		}
	}
	if t.op == "call" && t.s == "strings.Index#0" {
		if c < 0 {
			return F
		}
		if c == 0 {
			return not(strTest("contains", t.args[0], t.args[1]))
		}
	}
	if c == 1 {
		// emptiness of built sequences, sums and maps
		switch t.op {
		case "len":
			if x := t.args[0].leaf; x != nil {
				switch x.op {
				case "cat":
					r := T
					for _, p := range x.args {
						r = and(r, ltConst(lenOf(p, "seq"), 1))
					}
					return r
				case "comp":
					n := newLoopID()
					as := openBinder(x, n)
					return not(mkExists(as[0], n, not(ltConst(lenOf(as[1], "seq"), 1))))
				case "scat":
					return F.andEmptyParts(x)
				case "mapof":
					return ltConst(lenOf(x.args[0], "seq"), 1)
				case "mdom":
					return ltConst(lenOf(x.args[0], "map"), 1)
				}
			}
		case "sum":
			n := newLoopID()
			as := openBinder(t, n)
			return not(mkExists(as[0], n, not(ltConst(as[1], 1))))
		}
	}
	return atomNode(mkTerm("lt", strconv.FormatInt(c, 10), []*Node{b}, nil))
}

func (n *Node) andEmptyParts(x *Term) *Node {
	r := T
	for _, p := range x.args {
		r = and(r, ltConst(lenOf(p, "str"), 1))
	}
	return r
}

func intLess(a, b *Node) *Node { return ltConst(linSub(a, b), 0) }

// ---- strings ----

func scatParts(t *Term) []*Node {
	if t.op == "scat" {
		return t.args
	}
	if t.op == "c" && t.s == "s:" {
		return nil
	}
	return []*Node{leafOf(t)}
}

func concat(ns ...*Node) *Node {
	if len(ns) == 0 {
		return Str("")
	}
	return apply(ns, func(ts []*Term) *Node {
		var out []*Node
		for _, t := range ts {
			for _, p := range scatParts(t) {
				if s, ok := p.constStr(); ok && len(out) > 0 {
					if q, ok := out[len(out)-1].constStr(); ok {
						out[len(out)-1] = Str(q + s)
						continue
					}
				}
				out = append(out, p)
			}
		}
		switch len(out) {
		case 0:
			return Str("")
		case 1:
			return out[0]
		}
		return leafOf(mkTerm("scat", "", out, types.Typ[types.String]))
	})
}

func strTest(op string, a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node {
		xs, xok := leafOf(x).constStr()
		ys, yok := leafOf(y).constStr()
		if yok && ys == "" {
			return T
		}
		if xok && yok {
			switch op {
			case "prefix":
				return Bool(strings.HasPrefix(xs, ys))
			case "suffix":
				return Bool(strings.HasSuffix(xs, ys))
			default:
				return Bool(strings.Contains(xs, ys))
			}
		}
		if x == y {
			return T
		}
		if x.op == "scat" && yok {
			first, last := x.args[0], x.args[len(x.args)-1]
			if p, ok := first.constStr(); ok && op == "prefix" {
				if strings.HasPrefix(p, ys) {
					return T
				}
				if !strings.HasPrefix(ys, p) {
					return F
				}
			}
			if p, ok := last.constStr(); ok && op == "suffix" {
				if strings.HasSuffix(p, ys) {
					return T
				}
				if !strings.HasSuffix(ys, p) {
					return F
				}
			}
		}
		return atomNode(mkTerm(op, "", []*Node{leafOf(x), leafOf(y)}, nil))
	})
}

// cutPart is the text before (cutb) or after (cuta) the first separator
func cutPart(op string, a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node {
		xs, xok := leafOf(x).constStr()
		ys, yok := leafOf(y).constStr()
		if xok && yok {
			p, q, _ := strings.Cut(xs, ys)
			if op == "cutb" {
				return Str(p)
			}
			return Str(q)
		}
		return leafOf(mkTerm(op, "", []*Node{leafOf(x), leafOf(y)}, types.Typ[types.String]))
	})
}

// dropOf is a[n:] for constant n
func dropOf(a *Node, n string) *Node {
	k, _ := strconv.Atoi(n)
	if k == 0 {
		return a
	}
	return apply1(a, func(x *Term) *Node {
		if s, ok := leafOf(x).constStr(); ok && len(s) >= k {
			return Str(s[k:])
		}
		if x.op == "scat" {
			if s, ok := x.args[0].constStr(); ok {
				if len(s) >= k {
					return concat(append([]*Node{Str(s[k:])}, x.args[1:]...)...)
				}
				return dropOf(concat(x.args[1:]...), strconv.Itoa(k-len(s)))
			}
		}
		if x.op == "drop" {
			j, _ := strconv.Atoi(x.s)
			return dropOf(x.args[0], strconv.Itoa(j+k))
		}
		return leafOf(mkTerm("drop", n, []*Node{leafOf(x)}, types.Typ[types.String]))
	})
}

func errIs(e, target *Node) *Node {
	return apply2(e, target, func(x, y *Term) *Node {
		if x.op == "c" && x.s == "nil" {
			return Bool(y == x)
		}
		if x == y {
			return T
		}
		if x.op == "err" {
			r := F
			for _, a := range x.args {
				r = or(r, errIs(a, leafOf(y)))
			}
			return r
		}
		if x.op == "global" && y.op == "global" {
			return F
		}
		return atomNode(mkTerm("erris", "", []*Node{leafOf(x), leafOf(y)}, nil))
	})
}

func typeIs(v *Node, typ string) *Node {
	return apply1(v, func(x *Term) *Node {
		if x.op == "c" && x.s == "nil" {
			return F
		}
		if x.op == "ifc" {
			return Bool(x.s == typ)
		}
		return atomNode(mkTerm("is", typ, []*Node{leafOf(x)}, nil))
	})
}

// ---- sequences ----

var emptySeq = leafOf(mkTerm("seq", "", nil, nil))

func seqLit(elems ...*Node) *Node {
	if len(elems) == 0 {
		return emptySeq
	}
	return apply(elems, func(ts []*Term) *Node {
		as := make([]*Node, len(ts))
		for i, t := range ts {
			as[i] = leafOf(t)
		}
		return leafOf(mkTerm("seq", "", as, nil))
	})
}

func isEmptySeq(t *Term) bool {
	return (t.op == "seq" && len(t.args) == 0) || (t.op == "c" && t.s == "nil")
}

func catParts(t *Term) []*Node {
	if t.op == "cat" {
		return t.args
	}
	if isEmptySeq(t) {
		return nil
	}
	return []*Node{leafOf(t)}
}

func seqCat(ns ...*Node) *Node {
	return apply(ns, func(ts []*Term) *Node {
		var out []*Node
		for _, t := range ts {
			for _, p := range catParts(t) {
				if p.leaf.op == "seq" && len(out) > 0 && out[len(out)-1].leaf.op == "seq" {
					q := out[len(out)-1].leaf
					out[len(out)-1] = leafOf(mkTerm("seq", "", append(append([]*Node{}, q.args...), p.leaf.args...), nil))
					continue
				}
				out = append(out, p)
			}
		}
		switch len(out) {
		case 0:
			return emptySeq
		case 1:
			return out[0]
		}
		return leafOf(mkTerm("cat", "", out, nil))
	})
}

// lenOf is the length of a string ("str"), slice ("seq") or map ("map")
func lenOf(n *Node, kind string) *Node {
	return apply1(n, func(t *Term) *Node {
		if s, ok := leafOf(t).constStr(); ok {
			return Int(int64(len(s)))
		}
		switch t.op {
		case "c":
			if t.s == "nil" {
				return Int(0)
			}
		case "seq":
			return Int(int64(len(t.args)))
		case "cat":
			r := Int(0)
			for _, p := range t.args {
				r = linAdd(r, lenOf(p, "seq"))
			}
			return r
		case "scat":
			r := Int(0)
			for _, p := range t.args {
				r = linAdd(r, lenOf(p, "str"))
			}
			return r
		case "comp":
			if ls := leavesOf(t.args[1]); len(ls) > 0 {
				k := int64(-1)
				for _, l := range ls {
					if l.op != "seq" || (k >= 0 && int64(len(l.args)) != k) {
						k = -2
						break
					}
					k = int64(len(l.args))
				}
				if k == 1 {
					return lenOf(t.args[0], "seq")
				}
			}
		case "sorted":
			return lenOf(t.args[0], kind)
		case "slice":
			hi := t.args[2]
			if hi == Nil {
				hi = lenOf(t.args[0], kind)
			}
			return linSub(hi, t.args[1])
		case "fill":
			return t.args[0]
		case "upd":
			return lenOf(t.args[0], kind)
		case "mdom":
			return lenOf(t.args[0], "map")
		case "entries":
			return lenOf(t.args[0], "map")
		case "mapof":
			if t.args[0].leaf == emptySeq.leaf {
				return Int(0)
			}
		case "call":
			if t.s == "re.FindStringSubmatch#0" {
				if k, ok := reGroups(t.args[0].leaf); ok {
					return Int(int64(k + 1))
				}
			}
		}
		return leafOf(mkTerm("len", kind, []*Node{leafOf(t)}, types.Typ[types.Int]))
	})
}

func indexOf(s, i *Node, typ types.Type) *Node {
	if s.leaf == nil && i.leaf != nil && i.leaf.op == "ix" {
		fr, _ := varName(i.leaf.s)
		if fr > 0 && loopDom[fr] == s {
			return loopVar("el", fr, typ)
		}
	}
	return apply2(s, i, func(x, y *Term) *Node {
		if k, ok := termInt(y); ok {
			if x.op == "seq" && k >= 0 && int(k) < len(x.args) {
				return x.args[k]
			}
			if x.op == "cat" && k >= 0 {
				if f := x.args[0].leaf; f.op == "seq" && int(k) < len(f.args) {
					return f.args[k]
				}
			}
			if x.op == "call" && x.s == "strings.SplitN#0" {
				if n, ok := x.args[2].constInt(); ok && n == 2 {
					if k == 0 {
						return cutPart("cutb", x.args[0], x.args[1])
					}
					if k == 1 {
						return cutPart("cuta", x.args[0], x.args[1])
					}
				}
			}
			if x.op == "call" && x.s == "strings.Split#0" && k == 0 {
				return cutPart("cutb", x.args[0], x.args[1])
			}
			if x.op == "slice" && x.s == "seq" {
				if lo, ok := x.args[1].constInt(); ok {
					return indexOf(x.args[0], Int(lo+k), typ)
				}
			}
		}
		if y.op == "ix" {
			fr, _ := varName(y.s)
			if d := loopDom[fr]; d != nil && d.leaf == x {
				return loopVar("el", fr, typ)
			}
		}
		switch x.op {
		case "upd":
			c := eqNode(x.args[1], leafOf(y))
			if c == T {
				return x.args[2]
			}
			return ite(c, x.args[2], indexOf(x.args[0], leafOf(y), typ))
		case "fill":
			return x.args[1]
		}
		return opaque("index", "", []*Node{leafOf(x), leafOf(y)}, typ)
	})
}

// sliceOf is s[lo:hi]; hi is Nil when absent
func sliceOf(s, lo, hi *Node, kind string) *Node {
	return apply([]*Node{s, lo, hi}, func(ts []*Term) *Node {
		x, l, h := ts[0], ts[1], ts[2]
		lc, lok := termInt(l)
		noHi := h == Nil.leaf
		if !noHi && leafOf(h) == lenOf(leafOf(x), kind) {
			noHi = true
			h = Nil.leaf
		}
		if lok && lc == 0 && noHi {
			return leafOf(x)
		}
		hc, hok := termInt(h)
		if cs, ok := leafOf(x).constStr(); ok && lok && (noHi || hok) {
			if noHi {
				hc = int64(len(cs))
			}
			if 0 <= lc && lc <= hc && hc <= int64(len(cs)) {
				return Str(cs[lc:hc])
			}
		}
		if kind == "str" && lok && noHi {
			return dropOf(leafOf(x), strconv.FormatInt(lc, 10))
		}
		if kind == "seq" && x.op == "seq" && lok && (noHi || hok) {
			if noHi {
				hc = int64(len(x.args))
			}
			if 0 <= lc && lc <= hc && hc <= int64(len(x.args)) {
				return seqLit(x.args[lc:hc]...)
			}
		}
		// s[:0] keeps nothing
		if lok && lc == 0 && hok && hc == 0 {
			if kind == "str" {
				return Str("")
			}
			return emptySeq
		}
		// s[:strings.Index(s, sep)] and s[strings.Index(s, sep)+len(sep):]
		if kind == "str" {
			if lok && lc == 0 && h.op == "call" && h.s == "strings.Index#0" && h.args[0].leaf == x {
				return cutPart("cutb", h.args[0], h.args[1])
			}
			if noHi && l.op == "lin" && len(l.args) == 1 {
				if c := l.args[0].leaf; c.op == "call" && c.s == "strings.Index#0" && c.args[0].leaf == x {
					if sep, ok := c.args[1].constStr(); ok && l.s == strconv.Itoa(len(sep))+",1" {
						return cutPart("cuta", c.args[0], c.args[1])
					}
				}
			}
		}
		if kind == "seq" && lok && x.op == "slice" && x.s == "seq" && x.args[2] == Nil {
			if l2, ok := x.args[1].constInt(); ok {
				hn := leafOf(h)
				if !noHi {
					hn = linAdd(hn, Int(l2))
				}
				return sliceOf(x.args[0], Int(lc+l2), hn, kind)
			}
		}
		return leafOf(mkTerm("slice", kind, []*Node{leafOf(x), leafOf(l), leafOf(h)}, x.typ))
	})
}

// mkComp is the concatenation of body over the elements of dom (variable #n)
func mkComp(dom *Node, n int, body *Node) *Node {
	if dom.leaf == nil {
		return apply1(dom, func(t *Term) *Node { return mkComp(leafOf(t), n, body) })
	}
	if dom == Bot {
		return Bot
	}
	if body == emptySeq {
		return emptySeq
	}
	d := dom.leaf
	if isEmptySeq(d) {
		return emptySeq
	}
	if d.op == "seq" && !usesIndex(body, n) {
		var parts []*Node
		for _, e := range d.args {
			parts = append(parts, bindElem(body, n, e))
		}
		return seqCat(parts...)
	}
	if d.op == "cat" && !usesIndex(body, n) {
		var parts []*Node
		for _, p := range d.args {
			m := newLoopID()
			parts = append(parts, mkComp(p, m, rebind(body, n, m)))
		}
		return seqCat(parts...)
	}
	if d.op == "comp" && !usesIndex(body, n) {
		m := newLoopID()
		as := openBinder(d, m)
		if inner, ok := flatBody(as[1], func(elem *Node) *Node { return bindElem(body, n, elem) }, func(seg *Node) *Node {
			k := newLoopID()
			return mkComp(seg, k, rebind(body, n, k))
		}); ok {
			return mkComp(as[0], m, inner)
		}
	}
	// identity
	if body.leaf != nil && body.leaf.op == "seq" && len(body.leaf.args) == 1 {
		e := body.leaf.args[0]
		if d.op != "mdom" && d.op != "irange" && e.leaf != nil && e.leaf.op == "el" && e.leaf.s == "#"+strconv.Itoa(n) {
			return dom
		}
		if d.op == "mdom" && e.leaf != nil && e.leaf.op == "pair" {
			k, v := e.leaf.args[0], e.leaf.args[1]
			if k.leaf.op == "key" && k.leaf.s == "#"+strconv.Itoa(n) && isElOf(v, n) {
				return entriesOf(d.args[0])
			}
		}
	}
	return closeRaw("comp", "", n, []*Node{dom, body})
}

func isElOf(v *Node, n int) bool {
	return v.leaf != nil && v.leaf.op == "el" && v.leaf.s == "#"+strconv.Itoa(n)
}

// flatBody maps the elements of a sequence-valued node
func flatBody(body *Node, elem func(*Node) *Node, seg func(*Node) *Node) (*Node, bool) {
	ok := true
	r := mapLeaves(body, func(t *Term) *Node {
		if t.op == "bot" {
			return Bot
		}
		var parts []*Node
		for _, p := range catParts(t) {
			if p.leaf.op == "seq" {
				for _, e := range p.leaf.args {
					parts = append(parts, elem(e))
				}
			} else {
				parts = append(parts, seg(p))
			}
		}
		return seqCat(parts...)
	})
	return r, ok
}

func usesIndex(n *Node, loop int) bool {
	if !hasFree(n.free, loop) {
		return false
	}
	s := "#" + strconv.Itoa(loop)
	return anyTerm(n, func(t *Term) bool { return (t.op == "ix" || t.op == "key") && t.s == s })
}

func usesVar(n *Node, loop int) bool { return hasFree(n.free, loop) }

// bindElem replaces the element variable of loop n
func bindElem(body *Node, n int, elem *Node) *Node {
	if !hasFree(body.free, n) {
		return body
	}
	t := mkTerm("el", "#"+strconv.Itoa(n), nil, nil)
	return substitute(body, map[*Term]*Node{t: elem})
}

func rebind(body *Node, n, m int) *Node {
	return renameVars(body, "#"+strconv.Itoa(n), "#"+strconv.Itoa(m), n, 0)
}

// mkExists: some element of dom satisfies body
func mkExists(dom *Node, n int, body *Node) *Node {
	if body == F {
		return F
	}
	if dom.leaf == nil {
		return apply1(dom, func(t *Term) *Node { return mkExists(leafOf(t), n, body) })
	}
	if dom == Bot {
		return F
	}
	d := dom.leaf
	if isEmptySeq(d) {
		return F
	}
	if !usesIndex(body, n) {
		switch d.op {
		case "seq":
			r := F
			for _, e := range d.args {
				r = or(r, bindElem(body, n, e))
			}
			return r
		case "cat":
			r := F
			for _, p := range d.args {
				m := newLoopID()
				r = or(r, mkExists(p, m, rebind(body, n, m)))
			}
			return r
		case "sorted":
			return mkExists(d.args[0], n, body)
		case "comp":
			m := newLoopID()
			as := openBinder(d, m)
			inner := condSeqExists(as[1], n, body)
			return mkExists(as[0], m, inner)
		}
	}
	if body == T {
		switch d.op {
		case "mdom":
			return not(ltConst(lenOf(d.args[0], "map"), 1))
		case "irange", "while":
		default:
			return not(ltConst(lenOf(dom, "seq"), 1))
		}
	}
	// conditions that do not depend on the element
	if !hasFree(body.free, n) {
		return and(body, mkExists(dom, n, T))
	}
	if inv := invariantAtom(body, n); inv != nil {
		h := assumeLit(body, inv, true)
		l := assumeLit(body, inv, false)
		return ite(atomNode(inv), mkExists(dom, n, h), mkExists(dom, n, l))
	}
	return closeRaw("exists", "", n, []*Node{dom, body})
}

func invariantAtom(body *Node, n int) *Term {
	var best *Term
	for _, a := range atomsOf(body) {
		if !hasFree(a.free, n) && a.bfree == 0 && (best == nil || a.id < best.id) {
			best = a
		}
	}
	return best
}

// assumeLit is n with atom a fixed
func assumeLit(n *Node, a *Term, v bool) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			return n
		}
		if r := memo[n]; r != nil {
			return r
		}
		var r *Node
		if n.atom == a {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = mk(n.atom, rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return assume(rec(n), a, v)
}

func condSeqExists(seq *Node, n int, body *Node) *Node {
	return mapLeaves(seq, func(t *Term) *Node {
		r := F
		for _, p := range catParts(t) {
			if p == Bot {
				continue
			}
			m := newLoopID()
			r = or(r, mkExists(p, m, rebind(body, n, m)))
		}
		return r
	})
}

// mkSum is the sum of body over dom
func mkSum(dom *Node, n int, body *Node) *Node {
	if z, ok := body.constInt(); ok && z == 0 {
		return Int(0)
	}
	if dom.leaf == nil {
		return apply1(dom, func(t *Term) *Node { return mkSum(leafOf(t), n, body) })
	}
	d := dom.leaf
	if isEmptySeq(d) {
		return Int(0)
	}
	if k, ok := body.constInt(); ok && k == 1 {
		return lenOf(dom, "seq")
	}
	if !usesIndex(body, n) {
		switch d.op {
		case "seq":
			r := Int(0)
			for _, e := range d.args {
				r = linAdd(r, bindElem(body, n, e))
			}
			return r
		case "cat":
			r := Int(0)
			for _, p := range d.args {
				m := newLoopID()
				r = linAdd(r, mkSum(p, m, rebind(body, n, m)))
			}
			return r
		case "sorted":
			return mkSum(d.args[0], n, body)
		}
	}
	return closeRaw("sum", "", n, []*Node{dom, body})
}

// ---- maps ----

func pairOf(k, v *Node) *Node {
	return apply2(k, v, func(x, y *Term) *Node {
		return leafOf(mkTerm("pair", "", []*Node{leafOf(x), leafOf(y)}, nil))
	})
}

func mapOf(pairs *Node) *Node {
	return apply1(pairs, func(t *Term) *Node {
		var parts []*Node
		changed := false
		for _, p := range catParts(t) {
			if p.leaf.op == "entries" && p.leaf.args[0].leaf.op == "mapof" {
				parts = append(parts, p.leaf.args[0].leaf.args[0])
				changed = true
				continue
			}
			parts = append(parts, p)
		}
		if changed {
			return mapOf(seqCat(parts...))
		}
		if len(parts) == 1 && parts[0].leaf.op == "entries" {
			return parts[0].leaf.args[0]
		}
		// later insertions with the same key win
		if t.op == "seq" && len(t.args) > 1 {
			var out []*Node
			for i, p := range t.args {
				dup := false
				for _, q := range t.args[i+1:] {
					if q.leaf.args[0] == p.leaf.args[0] {
						dup = true
					}
				}
				if !dup {
					out = append(out, p)
				}
			}
			allConst := true
			for _, p := range out {
				if !p.leaf.args[0].isConst() {
					allConst = false
				}
			}
			if allConst {
				sort.SliceStable(out, func(i, j int) bool { return out[i].leaf.args[0].leaf.s < out[j].leaf.args[0].leaf.s })
			}
			return leafOf(mkTerm("mapof", "", []*Node{seqLit(out...)}, nil))
		}
		if t.op == "cat" {
			isPair := func(n *Node) bool { return n.leaf != nil && n.leaf.op == "pair" }
			later := map[*Node]bool{}
			dropped := false
			for i := len(parts) - 1; i >= 0; i-- {
				if parts[i].leaf.op != "seq" {
					continue
				}
				var keep []*Node
				as := parts[i].leaf.args
				for j := len(as) - 1; j >= 0; j-- {
					if isPair(as[j]) {
						if later[as[j].leaf.args[0]] {
							dropped = true
							continue
						}
						later[as[j].leaf.args[0]] = true
					}
					keep = append([]*Node{as[j]}, keep...)
				}
				parts[i] = seqLit(keep...)
			}
			if dropped {
				return mapOf(seqCat(parts...))
			}
		}
		return leafOf(mkTerm("mapof", "", []*Node{leafOf(t)}, nil))
	})
}

func entriesOf(m *Node) *Node {
	return apply1(m, func(t *Term) *Node {
		if isEmptySeq(t) {
			return emptySeq
		}
		return leafOf(mkTerm("entries", "", []*Node{leafOf(t)}, nil))
	})
}

func mapDom(m *Node) *Node {
	return apply1(m, func(t *Term) *Node {
		if isEmptySeq(t) || (t.op == "mapof" && t.args[0] == emptySeq) {
			return emptySeq
		}
		return leafOf(mkTerm("mdom", "", []*Node{leafOf(t)}, nil))
	})
}

func pairKey(p *Node) *Node {
	return apply1(p, func(t *Term) *Node {
		if t.op == "pair" {
			return t.args[0]
		}
		return opaque("pkey", "", []*Node{leafOf(t)}, nil)
	})
}

func mapHas(m, k *Node) *Node {
	return apply2(m, k, func(t, y *Term) *Node {
		if isEmptySeq(t) {
			return F
		}
		if t.op == "mapof" {
			if q := t.args[0].leaf; q != nil && q.op == "seq" {
				r := F
				for _, p := range q.args {
					r = or(r, eqNode(pairKey(p), leafOf(y)))
				}
				return r
			}
			n := newLoopID()
			el := leafOf(mkTerm("el", "#"+strconv.Itoa(n), nil, nil))
			return mkExists(t.args[0], n, eqNode(pairKey(el), leafOf(y)))
		}
		if y.op == "key" {
			fr, _ := varName(y.s)
			if d := loopDom[fr]; d != nil && d.leaf != nil && d.leaf.op == "mdom" && d.leaf.args[0].leaf == t {
				return T
			}
		}
		return atomNode(mkTerm("has", "", []*Node{leafOf(t), leafOf(y)}, nil))
	})
}

// mapGetRaw is the value stored under a key that is present
func mapGetRaw(m, k *Node, typ types.Type) *Node {
	return apply2(m, k, func(t, y *Term) *Node {
		if t.op == "mapof" {
			if s := t.args[0].leaf; s.op == "seq" {
				r := Bot
				for _, p := range s.args {
					c := eqNode(p.leaf.args[0], leafOf(y))
					r = ite(c, p.leaf.args[1], r)
				}
				return r
			} else if s.op == "cat" {
				// last insertion first
				l := s.args[len(s.args)-1].leaf
				if l.op == "seq" {
					p := l.args[len(l.args)-1]
					c := eqNode(p.leaf.args[0], leafOf(y))
					rest := append([]*Node{}, s.args[:len(s.args)-1]...)
					rest = append(rest, seqLit(l.args[:len(l.args)-1]...))
					return ite(c, p.leaf.args[1], mapGetRaw(mapOf(seqCat(rest...)), leafOf(y), typ))
				}
			}
		}
		if y.op == "key" {
			fr, _ := varName(y.s)
			if d := loopDom[fr]; d != nil && d.leaf != nil && d.leaf.op == "mdom" && d.leaf.args[0].leaf == t {
				return loopVar("el", fr, typ)
			}
		}
		return opaque("get", "", []*Node{leafOf(t), leafOf(y)}, typ)
	})
}

func mapGet(m, k *Node, typ types.Type) *Node {
	h := mapHas(m, k)
	return ite(h, mapGetRaw(m, k, typ), zeroOf(typ))
}

// ---- theory ----

// implied: does atom a having value av decide atom b?
func implied(a *Term, av bool, b *Term) (bool, bool) {
	if a == b {
		return true, av
	}
	switch a.op {
	case "lt":
		if b.op == "lt" && a.args[0] == b.args[0] {
			ca, _ := strconv.ParseInt(a.s, 10, 64)
			cb, _ := strconv.ParseInt(b.s, 10, 64)
			if av && cb >= ca {
				return true, true
			}
			if !av && cb <= ca {
				return true, false
			}
			return false, false
		}
		l := a.args[0].leaf
		if l.op == "len" && len(b.args) > 0 && b.args[0] == l.args[0] {
			ca, _ := strconv.ParseInt(a.s, 10, 64)
			switch b.op {
			case "eq":
				if s, ok := b.args[1].constStr(); ok {
					n := int64(len(s))
					if av && n >= ca || !av && n < ca {
						return true, false
					}
				} else if b.args[1] == Nil && !av {
					// something with elements is not nil
					return true, false
				}
			case "prefix", "suffix", "contains":
				if s, ok := b.args[1].constStr(); ok && av && int64(len(s)) >= ca {
					return true, false
				}
			case "exists", "fsm":
				if b.op == "exists" && av && ca == 1 {
					return true, false
				}
			}
		}
	case "eq":
		// true: handled by substitution
		if !av && a.args[1] != Nil {
			if b.op == "prefix" || b.op == "suffix" || b.op == "contains" {
				return false, false
			}
		}
		if b.op == "eq" && av && a.args[0] == b.args[0] {
			return true, false
		}
		if b.op == "lt" && av {
			if l := b.args[0].leaf; l.op == "len" && l.args[0] == a.args[0] {
				cb, _ := strconv.ParseInt(b.s, 10, 64)
				if s, ok := a.args[1].constStr(); ok {
					return true, int64(len(s)) < cb
				}
				if a.args[1] == Nil {
					return true, 0 < cb
				}
			}
		}
		if av && len(b.args) > 0 && b.args[0] == a.args[0] {
			switch b.op {
			case "prefix", "suffix", "contains":
				if s, ok := a.args[1].constStr(); ok {
					if p, ok := b.args[1].constStr(); ok {
						r := strTest(b.op, Str(s), Str(p))
						return true, r == T
					}
				}
			case "erris", "is":
				if a.args[1] == Nil {
					return true, false
				}
			}
		}
	case "prefix", "suffix", "contains":
		p, pok := a.args[1].constStr()
		if !pok {
			return false, false
		}
		if b.op == "lt" && av {
			if l := b.args[0].leaf; l.op == "len" && l.args[0] == a.args[0] {
				cb, _ := strconv.ParseInt(b.s, 10, 64)
				if cb <= int64(len(p)) {
					return true, false
				}
			}
			return false, false
		}
		if len(b.args) == 0 || b.args[0] != a.args[0] {
			return false, false
		}
		if b.op == "eq" {
			if s, ok := b.args[1].constStr(); ok {
				r := strTest(a.op, Str(s), Str(p)) == T
				if r != av {
					return true, false
				}
			}
			return false, false
		}
		q, qok := b.argStr(1)
		if !qok {
			return false, false
		}
		if av {
			switch {
			case a.op == b.op && a.op == "prefix":
				if strings.HasPrefix(p, q) {
					return true, true
				}
				if !strings.HasPrefix(q, p) {
					return true, false
				}
			case a.op == b.op && a.op == "suffix":
				if strings.HasSuffix(p, q) {
					return true, true
				}
				if !strings.HasSuffix(q, p) {
					return true, false
				}
			case b.op == "contains":
				if strings.Contains(p, q) {
					return true, true
				}
			}
		} else {
			switch {
			case a.op == "prefix" && b.op == "prefix" && strings.HasPrefix(q, p):
				return true, false
			case a.op == "suffix" && b.op == "suffix" && strings.HasSuffix(q, p):
				return true, false
			case a.op == "contains" && (b.op == "prefix" || b.op == "suffix" || b.op == "contains") && strings.Contains(q, p):
				return true, false
			}
		}
	case "erris":
		if av && b.op == "eq" && b.args[0] == a.args[0] && b.args[1] == Nil {
			return true, false
		}
	case "is":
		if av && len(b.args) > 0 && b.args[0] == a.args[0] {
			if b.op == "is" {
				return true, false
			}
			if b.op == "eq" && b.args[1] == Nil {
				return true, false
			}
		}
	case "slt":
		if av && b.op == "eq2" && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return true, false
		}
	case "eq2":
		if av && b.op == "slt" && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return true, false
		}
	case "exists":
		if av && b.op == "lt" {
			if l := b.args[0].leaf; l.op == "len" && l.args[0] == a.args[0] && b.s == "1" {
				return true, false
			}
			if l := b.args[0].leaf; l.op == "len" && a.args[0].leaf.op == "mdom" && a.args[0].leaf.args[0] == l.args[0] && b.s == "1" {
				return true, false
			}
		}
	case "has":
		if av && b.op == "eq" && b.args[0] == a.args[0] && b.args[1] == Nil {
			return true, false
		}
		if av && b.op == "lt" && b.s == "1" {
			if l := b.args[0].leaf; l.op == "len" && l.args[0] == a.args[0] {
				return true, false
			}
		}
	}
	return false, false
}

func (t *Term) argStr(i int) (string, bool) {
	if i < len(t.args) {
		return t.args[i].constStr()
	}
	return "", false
}

// facts: what an atom's value lets us rewrite, and the term all affected
// values must mention (nil: nothing is affected)
func facts(a *Term, v bool) (key *Term, rewrite map[*Term]*Node) {
	switch a.op {
	case "eq":
		x := a.args[0].leaf
		if v {
			return x, map[*Term]*Node{x: a.args[1]}
		}
		return x, nil
	case "eq2":
		x, y := a.args[0].leaf, a.args[1].leaf
		if v {
			// the one created later is written as the other
			return y, map[*Term]*Node{y: leafOf(x)}
		}
		return y, nil
	case "lt":
		l := a.args[0].leaf
		if l.op == "len" {
			x := l.args[0].leaf
			if v && a.s == "1" {
				switch l.s {
				case "str":
					return x, map[*Term]*Node{x: Str("")}
				case "seq":
					return x, map[*Term]*Node{x: emptySeq}
				}
			}
			return x, nil
		}
		return l, nil
	case "prefix", "suffix", "contains":
		x := a.args[0].leaf
		if a.op == "contains" && !v {
			return x, map[*Term]*Node{
				mkTerm("cutb", "", []*Node{a.args[0], a.args[1]}, types.Typ[types.String]): a.args[0],
				mkTerm("cuta", "", []*Node{a.args[0], a.args[1]}, types.Typ[types.String]): Str(""),
			}
		}
		return x, nil
	case "erris", "is", "slt", "exists", "has":
		if a.op == "exists" && a.args[0].leaf.op == "mdom" {
			return a.args[0].leaf.args[0].leaf, nil
		}
		return a.args[0].leaf, nil
	}
	return nil, nil
}

// assume rewrites n knowing that atom a has value v
func assume(n *Node, a *Term, v bool) *Node {
	if n.leaf != nil && n.leaf.op == "c" {
		return n
	}
	if !n.sig.meets(&a.sig) {
		return n
	}
	key, rw := facts(a, v)
	if key == nil || !n.sig.has(&key.own) {
		return n
	}
	vi := 0
	if v {
		vi = 1
	}
	mk3 := [3]int{n.id, a.id, vi}
	if r := assumeMemo[mk3]; r != nil {
		return r
	}
	var s *subst
	if len(rw) > 0 {
		s = newSubst(rw)
	}
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if !n.sig.has(&key.own) {
			return n
		}
		if r := memo[n]; r != nil {
			return r
		}
		var r *Node
		if n.leaf != nil {
			switch {
			case n.leaf.op == "struct":
				args := make([]*Node, len(n.leaf.args))
				for i, x := range n.leaf.args {
					args[i] = rec(x)
				}
				r = mkStruct(n.leaf.s, args)
			case s != nil:
				r = s.node(n)
			default:
				r = n
			}
		} else if f, val := implied(a, v, n.atom); f {
			if val {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			at := atomNode(n.atom)
			if s != nil {
				at = s.term(n.atom)
			}
			hi, lo := rec(n.hi), rec(n.lo)
			if at.atom == n.atom && at.hi == T && at.lo == F {
				if hi == n.hi && lo == n.lo {
					r = n
				} else {
					r = mk(n.atom, hi, lo)
				}
			} else {
				r = ite(at, hi, lo)
			}
		}
		memo[n] = r
		return r
	}
	r := rec(n)
	assumeMemo[mk3] = r
	return r
}
