package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- contracts between the parts of the decoder

// isDecode: a function that decodes one value through an unpacker and a
// parser it is given as interfaces.
func (e *Engine) isDecode(fn *ssa.Function) bool {
	if !e.interpretable(fn) || fn.Signature.Recv() != nil {
		return false
	}
	s := fn.Signature
	return e.decodeParams(s) && s.Results().Len() == 2 && isErrorType(s.Results().At(1).Type()) && types.Identical(s.Results().At(0).Type(), e.typ("Value"))
}

func (e *Engine) decodeParams(s *types.Signature) bool {
	u, p := false, false
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		u = u || types.Identical(t, e.typ("Unpacker"))
		p = p || types.Identical(t, e.typ("Parser"))
	}
	return u && p
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// decodeResult: what a decode step may do, by the contract that is shown for
// every decode function separately: an error, or a value and no error. The
// unpacker and the parser end up in an arbitrary state.
func (r *Run) decodeResult(fn *ssa.Function, args []Val) []Val {
	r.emit("decode", args...)
	r.st.evs[len(r.st.evs)-1].fn = fn
	for _, a := range args {
		r.havocState(a)
	}
	if r.choose(2) == 0 {
		x := r.fresh(r.T("Value"), "child").(*Term)
		r.assume(Not(IsNilAtom(x)))
		r.st.evs[len(r.st.evs)-1].res = []Val{x, r.nilErr()}
		return []Val{x, r.nilErr()}
	}
	er := r.freshErr("childerr")
	r.assume(Not(IsNilAtom(er)))
	x := r.fresh(r.T("Value"), "failed")
	r.st.evs[len(r.st.evs)-1].res = []Val{x, er}
	return []Val{x, er}
}

// havocState: the concrete object behind an argument may have changed.
func (r *Run) havocState(v Val) {
	v = r.pick(v)
	if iv, ok := v.(*IfaceV); ok {
		v = r.pick(iv.v)
	}
	p, ok := v.(*PtrV)
	if !ok {
		return
	}
	sv, ok := r.load(p).(*StructV)
	if !ok {
		return
	}
	st, ok := sv.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	n := &StructV{typ: sv.typ, fields: append([]Val{}, sv.fields...)}
	for i := range n.fields {
		t := st.Field(i).Type()
		switch t.Underlying().(type) {
		case *types.Basic, *types.Array:
			n.fields[i] = r.fresh(t, "after."+st.Field(i).Name())
		default:
			if isErrorType(t) {
				n.fields[i] = r.freshErr("after." + st.Field(i).Name())
			}
		}
	}
	r.st.heap[p.obj] = r.setPath(r.st.heap[p.obj], p.path, n)
}

// contracts: decode steps and recursive calls are replaced by their
// contracts.
func (e *Engine) contracts() {
	e.hook = func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if len(r.stack) > 0 && e.isDecode(fn) {
			return r.decodeResult(fn, args), true
		}
		if len(r.stack) > 0 && e.packLog {
			return e.packerMethod(r, fn, args)
		}
		return nil, false
	}
	e.recursion()
}

// recursion: a nested call of a function that is being analysed.
func (e *Engine) recursion() {
	e.recur = func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
		if e.isDecode(fn) {
			return r.decodeResult(fn, args), true
		}
		r.emit("recursion", r.freezeArgs(args)...)
		for _, a := range args {
			r.havocState(a)
		}
		var res []Val
		s := fn.Signature.Results()
		for i := 0; i < s.Len(); i++ {
			if isErrorType(s.At(i).Type()) {
				res = append(res, r.freshErr("recerr"))
			} else {
				res = append(res, r.fresh(s.At(i).Type(), "rec"))
			}
		}
		return res, true
	}
}

// packerMethod: calls of a concrete packer are logged like calls of an
// unknown Packer; what the packer itself does is shown separately.
func (e *Engine) packerMethod(r *Run, fn *ssa.Function, args []Val) ([]Val, bool) {
	rc := fn.Signature.Recv()
	if rc == nil || !e.interpretable(fn) {
		return nil, false
	}
	pt, ok := e.typ("Packer").(*types.Named)
	if !ok {
		return nil, false
	}
	it := pt.Underlying().(*types.Interface)
	if !types.Implements(rc.Type(), it) {
		return nil, false
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() != fn.Name() {
			continue
		}
		r.emit("Packer."+m.Name(), r.freezeArgs(args)...)
		if m.Type().(*types.Signature).Results().Len() > 0 {
			return r.freshResults(m.Type().(*types.Signature), "perr"), true
		}
		return nil, true
	}
	return nil, false
}
