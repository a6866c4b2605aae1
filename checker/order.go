package main

import "golang.org/x/tools/go/ssa"

// States that arrive at the head of a loop wait there until the code before the head and inside the loop has been
// analysed, so that the code behind the head sees the joined state of them all.

func (e *Engine) wait(ent *loopEntry) {
	if !ent.queued {
		ent.queued = true
		e.waiting = append(e.waiting, ent)
	}
}

// nextLoop goes on at the waiting loop head that comes first.
func (e *Engine) nextLoop() bool {
	if len(e.waiting) == 0 {
		return false
	}
	at := 0
	for i := 1; i < len(e.waiting); i++ {
		if e.before(e.waiting[i].st, e.waiting[at].st) {
			at = i
		}
	}
	ent := e.waiting[at]
	e.waiting = append(e.waiting[:at], e.waiting[at+1:]...)
	ent.queued = false
	ent.runs++
	s := ent.st.clone()
	s.resumed = ent.call
	e.work = append(e.work, s)
	return true
}

// before: state a is at an earlier place of the program than b, where the inside of a loop comes before its head.
func (e *Engine) before(a, b *State) bool {
	for i := 0; i < len(a.frames) && i < len(b.frames); i++ {
		x, y := a.frames[i], b.frames[i]
		if x.fn != y.fn || x.block == nil || y.block == nil {
			return false
		}
		if x.block != y.block {
			return e.blockBefore(x.fn, x.block, y.block)
		}
		lastX, lastY := i == len(a.frames)-1, i == len(b.frames)-1
		if lastX != lastY {
			return lastY
		}
		if x.pc != y.pc {
			return x.pc < y.pc
		}
		if x.inDefers != y.inDefers {
			return y.inDefers
		}
	}
	return false
}

func (e *Engine) blockBefore(fn *ssa.Function, x, y *ssa.BasicBlock) bool {
	loops := e.info(fn).loops
	if b, ok := loops[x]; ok && b[y] {
		return false
	}
	if b, ok := loops[y]; ok && b[x] {
		return true
	}
	ord := e.rpo(fn)
	// the outermost loops that contain only one of them stand for their contents
	out := func(x, y *ssa.BasicBlock) *ssa.BasicBlock {
		var r *ssa.BasicBlock
		for h, body := range loops {
			if body[x] && !body[y] && (r == nil || len(body) > len(loops[r])) {
				r = h
			}
		}
		if r == nil {
			return x
		}
		return r
	}
	return ord[out(x, y)] < ord[out(y, x)]
}

func (e *Engine) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if o, ok := e.orders[fn]; ok {
		return o
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				visit(s)
			}
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		visit(fn.Recover)
	}
	o := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		o[b] = len(post) - i
	}
	if e.orders == nil {
		e.orders = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	e.orders[fn] = o
	return o
}
