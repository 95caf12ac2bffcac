package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A package-level variable is guarded if outside package initialisation it is
// only accessed while the same package-level mutex is held: reads under a read
// or write lock, writes and map updates under a write lock.

const (
	unlocked = iota
	readLocked
	writeLocked
)

// lockStates: the lock of mu held on every path to each instruction.
func lockStates(fn *ssa.Function, mu ssa.Value) map[ssa.Instruction]int {
	in := map[*ssa.BasicBlock]int{}
	for _, b := range fn.Blocks {
		in[b] = writeLocked
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	in[fn.Blocks[0]] = unlocked
	step := func(x ssa.Instruction, s int) int {
		c, ok := x.(*ssa.Call)
		if !ok {
			return s
		}
		if m, op := lockCall(&c.Call); m == mu {
			return op
		}
		return s
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			s := in[b]
			for _, x := range b.Instrs {
				s = step(x, s)
			}
			for _, n := range b.Succs {
				if s < in[n] {
					in[n] = s
					ch = true
				}
			}
		}
	}
	out := map[ssa.Instruction]int{}
	for _, b := range fn.Blocks {
		s := in[b]
		for _, x := range b.Instrs {
			out[x] = s
			s = step(x, s)
		}
	}
	return out
}

// lockCall: the package-level mutex a call locks or unlocks.
func lockCall(c *ssa.CallCommon) (ssa.Value, int) {
	f := c.StaticCallee()
	if f == nil || len(c.Args) != 1 {
		return nil, 0
	}
	g, ok := c.Args[0].(*ssa.Global)
	if !ok {
		return nil, 0
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return g, writeLocked
	case "(*sync.RWMutex).RLock":
		return g, readLocked
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return g, unlocked
	}
	return nil, 0
}

func (m *modAnalysis) findGuarded(fns []*ssa.Function) {
	m.guarded = map[*ssa.Global]bool{}
	mutexes := map[*ssa.Global]bool{}
	uses := map[*ssa.Global][]ssa.Instruction{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(*ssa.Call); ok {
					if mu, _ := lockCall(&c.Call); mu != nil {
						mutexes[mu.(*ssa.Global)] = true
						continue
					}
				}
				var ops [8]*ssa.Value
				for _, o := range x.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg == m.e.pkg {
						uses[g] = append(uses[g], x)
					}
				}
			}
		}
	}
	for mu := range mutexes {
		states := map[*ssa.Function]map[ssa.Instruction]int{}
		held := func(x ssa.Instruction) int {
			f := x.Parent()
			if states[f] == nil {
				states[f] = lockStates(f, mu)
			}
			return states[f][x]
		}
		for g, us := range uses {
			ok := true
			for _, x := range us {
				ok = ok && (x.Parent().Synthetic == "package initializer" || guardedUse(g, x, held))
			}
			if ok {
				m.guarded[g] = true
			}
		}
	}
}

func guardedUse(g *ssa.Global, x ssa.Instruction, held func(ssa.Instruction) int) bool {
	switch x := x.(type) {
	case *ssa.Store:
		return x.Addr == g && held(x) == writeLocked
	case *ssa.UnOp:
		if x.Op != token.MUL || held(x) == unlocked {
			return false
		}
		if _, ok := x.Type().Underlying().(*types.Map); !ok {
			return !hasPointers(x.Type())
		}
		for _, u := range *x.Referrers() {
			switch u := u.(type) {
			case *ssa.Lookup:
				if held(u) == unlocked {
					return false
				}
			case *ssa.MapUpdate:
				if u.Map != x || held(u) != writeLocked {
					return false
				}
			case *ssa.Call:
				b, ok := u.Call.Value.(*ssa.Builtin)
				if !ok || held(u) == unlocked || b.Name() != "len" && held(u) != writeLocked {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	case *ssa.DebugRef:
		return true
	}
	return false
}
