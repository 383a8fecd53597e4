package main

import (
	"go/types"
	"sort"
	"strings"
)

// What a value looks like once it is encoded depends on its type: names and
// options of the fields, and methods that encode it differently.

var encoders = map[string]string{
	"encoding/json.Marshal": "json", "encoding/json.MarshalIndent": "json", "(*encoding/json.Encoder).Encode": "json",
	"gopkg.in/yaml.v3.Marshal": "yaml", "(*gopkg.in/yaml.v3.Encoder).Encode": "yaml",
}

func wireShape(codec string, t types.Type) string {
	return wire(codec, t, map[types.Type]bool{})
}

func wire(codec string, t types.Type, seen map[types.Type]bool) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "?" + wire(codec, p.Elem(), seen)
	}
	if n, ok := t.(*types.Named); ok {
		if seen[n] {
			return "^"
		}
		seen[n] = true
		defer delete(seen, n)
		for _, m := range []string{"Marshal" + strings.ToUpper(codec), "MarshalText"} {
			for _, x := range []types.Type{n, types.NewPointer(n)} {
				if o, _, _ := types.LookupFieldOrMethod(x, false, n.Obj().Pkg(), m); o != nil {
					if _, ok := o.(*types.Func); ok {
						return "custom"
					}
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := structTag(u.Tag(i), codec)
			name, opts, _ := strings.Cut(tag, ",")
			if name == "-" || !f.Exported() && !f.Embedded() {
				continue
			}
			if f.Embedded() && name == "" && codec == "json" || strings.Contains(opts, "inline") {
				s := wire(codec, f.Type(), seen)
				if strings.HasPrefix(s, "{") {
					out = append(out, strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}"))
					continue
				}
			}
			if name == "" {
				name = f.Name()
				if codec == "yaml" {
					name = strings.ToLower(name)
				}
			}
			out = append(out, name+","+opts+":"+wire(codec, f.Type(), seen))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ";") + "}"
	case *types.Slice:
		return "[" + wire(codec, u.Elem(), seen) + "]"
	case *types.Array:
		return "[" + wire(codec, u.Elem(), seen) + "]"
	case *types.Map:
		return "map[" + wire(codec, u.Elem(), seen) + "]"
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		}
		return u.Name()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		// what implements it
		if i, ok := n.Underlying().(*types.Interface); ok && i.NumMethods() > 0 {
			var out []string
			sc := n.Obj().Pkg().Scope()
			for _, name := range sc.Names() {
				o, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || o.Type() == t || types.IsInterface(o.Type()) {
					continue
				}
				if types.Implements(o.Type(), i) || types.Implements(types.NewPointer(o.Type()), i) {
					if s := wire(codec, o.Type(), seen); !contains(out, s) {
						out = append(out, s)
					}
				}
			}
			sort.Strings(out)
			return "any(" + strings.Join(out, "|") + ")"
		}
	}
	return "any"
}
