package main

import (
	"strings"
)

// inPlace: the only ciphertext, plaintext or polynomial the operation is given, so its previous content is the operand.
func inPlace(R *DomRun, root string) bool {
	fn := R.cfg.fn
	for i, p := range fn.Params {
		n := paramName(fn, i)
		if n == root {
			continue
		}
		t := p.Type()
		if i == 0 && fn.Signature.Recv() != nil && !R.D.recvIsOperand() {
			continue
		}
		if hasPoly(t, 0) || isOperand(t) {
			return false
		}
	}
	return true
}

func checkP19(P *Prog, r *Report) {
	r.Rule = "The previous content of every receiver and of every scratch polynomial an operation may write carries a label of its own through the run; on return no component of a result may carry one, except for receivers of operations documented as accumulating and for an object that is itself the only operand."
	checkDom(P, r, "P19", func(f *domFinder, ps []*OutPoly, os []*OutObj) {
		if strings.HasPrefix(f.R.cfg.fn.Name(), "CtxPool") { // hands out scratch
			return
		}
		for _, p := range ps {
			r.ok(1)
			if isApprox(p.A.may) {
				r.count("results not judged (rows not followed)", 1)
				continue
			}
			r.count("result contents judged", 1)
			for _, m := range p.A.may {
				switch {
				case strings.HasPrefix(m, "stale:"):
					f.bad("scratch-content", stripIdx(p.Path), "%s may still hold what the scratch memory %s held before the call", p.Path, m[6:])
				case strings.HasPrefix(m, "old:") && !inPlace(f.R, p.Root):
					f.bad("receiver-content", stripIdx(p.Path), "%s may still hold (or be computed from) what %s held before the call", p.Path, m[4:])
				default:
					continue
				}
				break
			}
		}
	})
	r.atLeast("operations", 150)
	r.atLeast("result contents judged", 1000)
}
