package absint

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Per-function control-flow information: an iteration order, natural loops and
// liveness.

type loopInfo struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	induc map[*ssa.Phi]int64 // induction variables and their steps
	tests []loopTest
}

// A loopTest is an exit test of a loop that compares an induction variable
// with a bound.
type loopTest struct {
	phi   *ssa.Phi
	bound ssa.Value
}

type fnInfo struct {
	order  map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*loopInfo // by head
	in     map[*ssa.BasicBlock][]*loopInfo
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{
		order: map[*ssa.BasicBlock]int{},
		loops: map[*ssa.BasicBlock]*loopInfo{},
		in:    map[*ssa.BasicBlock][]*loopInfo{},
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := fi.loops[h]
			if l == nil {
				l = &loopInfo{head: h, body: map[*ssa.BasicBlock]bool{h: true}, induc: map[*ssa.Phi]int64{}}
				fi.loops[h] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, c := range fn.Blocks {
			if l := fi.loops[c]; l != nil && l.body[b] {
				fi.in[b] = append(fi.in[b], l)
			}
		}
	}
	// order: depth first, leaving loops first, so that in reverse postorder
	// loop bodies come before what follows the loop
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		leaves := func(t *ssa.BasicBlock) int {
			n := 0
			for _, l := range fi.in[b] {
				if !l.body[t] {
					n++
				}
			}
			return n
		}
		sort.SliceStable(succs, func(i, j int) bool { return leaves(succs[i]) > leaves(succs[j]) })
		for _, t := range succs {
			dfs(t)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.order[b] = len(post) - i
	}
	for _, l := range fi.loops {
		l.findInduction()
	}
	fi.liveness(fn)
	return fi
}

func (l *loopInfo) findInduction() {
	for _, instr := range l.head.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		step, found := int64(0), true
		for i, pred := range l.head.Preds {
			if !l.body[pred] {
				continue
			}
			n, ok := stepOf(phi.Edges[i], phi)
			if !ok || step != 0 && n != step {
				found = false
				break
			}
			step = n
		}
		if found && step != 0 {
			l.induc[phi] = step
		}
	}
	for b := range l.body {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		every := true // the test is made in every round
		for _, pred := range l.head.Preds {
			if l.body[pred] && !b.Dominates(pred) {
				every = false
			}
		}
		if !every {
			continue
		}
		for phi := range l.induc {
			if offsetOf(cmp.X, phi) {
				l.tests = append(l.tests, loopTest{phi, cmp.Y})
			} else if offsetOf(cmp.Y, phi) {
				l.tests = append(l.tests, loopTest{phi, cmp.X})
			}
		}
	}
}

func stepOf(v ssa.Value, phi *ssa.Phi) (int64, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || b.X != phi || c.Value == nil {
		return 0, false
	}
	n := c.Int64()
	if b.Op == token.SUB {
		n = -n
	}
	return n, true
}

func offsetOf(v ssa.Value, phi *ssa.Phi) bool {
	if v == phi {
		return true
	}
	_, ok := stepOf(v, phi)
	return ok
}

func (fi *fnInfo) liveness(fn *ssa.Function) {
	fi.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := fi.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				instr := b.Instrs[j]
				if phi, ok := instr.(*ssa.Phi); ok {
					// Phis are set on the way in.
					_ = phi
					continue
				}
				if v, ok := instr.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range instr.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
}

// liveOut lists the values needed on the edges out of b.
func (fi *fnInfo) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		phis := map[ssa.Value]bool{}
		for j, p := range s.Preds {
			if p != b {
				continue
			}
			for _, instr := range s.Instrs {
				phi, ok := instr.(*ssa.Phi)
				if !ok {
					break
				}
				phis[phi] = true
				if tracked(phi.Edges[j]) {
					live[phi.Edges[j]] = true
				}
			}
		}
		for v := range fi.liveIn[s] {
			if !phis[v] {
				live[v] = true
			}
		}
	}
	return live
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

// liveAfter lists the values that are needed after instruction i of b.
func (fi *fnInfo) liveAfter(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	live := fi.liveOut(b)
	for j := len(b.Instrs) - 1; j > i; j-- {
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op != nil && tracked(*op) {
				live[*op] = true
			}
		}
	}
	return live
}
