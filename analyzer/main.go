package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func main() {
	defer startProfile()()
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(cmdCheck(os.Args[2], tier))
	}
	if len(os.Args) > 1 && os.Args[1] == "checkall" {
		os.Exit(cmdCheckAll())
	}
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(os.Args) > 1 && (os.Args[1] == "cmp" || os.Args[1] == "cmpv") {
		for i := 2; i+1 < len(os.Args); i += 2 {
			cmdCmp(p, os.Args[i], os.Args[i+1], os.Args[1] == "cmpv")
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "all" {
		var ks []string
		for path, sp := range p.pkgs {
			if strings.Contains(path, "verifspec") {
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
			for name, m := range sp.Members {
				switch x := m.(type) {
				case *ssa.Function:
					if x.Object() != nil && x.Object().Exported() {
						ks = append(ks, rel+" "+name)
					}
				case *ssa.Type:
					if !x.Object().Exported() {
						continue
					}
					for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := p.prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if o := ms.At(i).Obj(); o.Exported() && p.prog.MethodValue(ms.At(i)) != nil {
								ks = append(ks, rel+" "+name+"."+o.Name())
							}
						}
					}
				}
			}
		}
		sort.Strings(ks)
		last := ""
		for _, k := range ks {
			if k == last {
				continue
			}
			last = k
			a, b, _ := strings.Cut(k, " ")
			cmdCmp(p, a, b, false)
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "pairs" {
		pr := newPairing(p)
		pr.opaque = contracts
		if len(os.Args) > 3 && (os.Args[3] == "A" || os.Args[3] == "B") {
			pi := pr.m[os.Args[2]]
			pr.decideCallees(pi.repo)
			pr.presets = map[string]*Node{}
			for _, a := range os.Args[4:] {
				if a[0] == '!' {
					pr.presets[a[1:]] = F
				} else {
					pr.presets[a] = T
				}
			}
			for _, spec := range []bool{true, false} {
				f := pi.repo
				if spec {
					f = pi.spec
				}
				n0, t0 := nodeCount, time.Now()
				_, why := summarise(p, f, spec, pr.boundary(os.Args[3], pi, false), pr, true, 4000000)
				fmt.Println("level B", why, nodeCount-n0, time.Since(t0))
			}
			return
		}
		var ns []string
		for n := range pr.m {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if len(os.Args) > 2 && !strings.Contains(n, os.Args[2]) {
				continue
			}
			t0 := time.Now()
			n0 := nodeCount
			pi := pr.m[n]
			pr.decide(pi)
			fmt.Printf("%-60s %v level=%s %v nodes=%d eff=%v mem=%v wild=%v %s\n", n, pi.status, pi.level, time.Since(t0).Round(time.Millisecond), nodeCount-n0, pi.classes, pi.memory, pi.wild, pi.why)
			for _, d := range pi.diffs {
				fmt.Printf("      %s\n      got  %.*s\n      want %.*s\n", d.what, wide(), d.got, wide(), d.want)
			}
		}
	}
	if len(os.Args) > 1 && os.Args[1] == "ext" {
		cnt := map[string]int{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if !inModule(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if cal := c.Common().StaticCallee(); cal != nil && !inModule(cal) {
						cnt[fullName(cal)]++
					} else if c.Common().IsInvoke() {
						cnt["IFACE "+ifaceName(c.Common().Value.Type(), c.Common().Method)]++
					}
				}
			}
		}
		var ks []string
		for k := range cnt {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(cnt[k], k)
		}
	}
}

func sortStrings(s []string) { sort.Strings(s) }

func wide() int {
	if os.Getenv("WIDE") != "" {
		return 1000000
	}
	return 1500
}
