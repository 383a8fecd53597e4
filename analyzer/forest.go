package main

import (
	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	live   []ssa.Value // defined in the loop, used after it
}

type loopForest struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loopInfo
}

func (ev *evaluator) forest(fn *ssa.Function) *loopForest {
	if f := ev.forests[fn]; f != nil {
		return f
	}
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	pos := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		pos[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] {
				if !s.Dominates(b) {
					giveUp("irreducible flow in %s", fn)
				}
				l := f.byHeader[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.byHeader[s] = l
				}
				l.latch = append(l.latch, b)
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	// the blocks of a loop must come in an order that visits inner blocks before
	// the ones after the loop: RPO of reducible graphs does, except that blocks
	// after the loop may come between its blocks, which the region walk handles
	for _, l := range f.byHeader {
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
	}
	ev.forests[fn] = f
	return f
}
