//go:build go1.21

package harness

import (
	"encoding/json"
	"strings"
	"time"
)

func planSize(p *Plan) int {
	n := 0
	for _, s := range p.Steps {
		n += 10
		n += len(s.Sched)
		for _, q := range s.Procs {
			n += 5 + 5*len(q.Faults) + len(q.Args) + len(q.Slice)
			if q.Drip > 0 {
				n += 2
			}
			n += q.Verbose
		}
	}
	for _, f := range p.Files {
		n += 5
		if f.Bytes != nil {
			n += f.Bytes.Len/256 + len(f.Bytes.Hex)/512
		}
		if f.Image != nil {
			n += f.Image.size()
		}
	}
	if p.Cap > 0 {
		n += 3
	}
	return n
}

// minimise shrinks a violating plan while it still shows the same class.
func minimise(pr *Prop, p *Plan, v *Violation) found {
	deadline := time.Now().Add(12 * time.Second)
	best, bestV := p.clone(), v
	tries := 0
	try := func(q *Plan) bool {
		if tries >= 400 || time.Now().After(deadline) {
			return false
		}
		tries++
		nv, _ := execute(pr, q, newStats(), false)
		if nv != nil && nv.Class == v.Class && nv.Key == v.Key {
			best, bestV = q, nv
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		// Whole steps, from the end.
		for n := len(best.Steps) / 2; n >= 1; n /= 2 {
			for i := len(best.Steps) - n; i >= 0; i -= n {
				if len(best.Steps) <= 1 || i+n > len(best.Steps) {
					continue
				}
				q := best.clone()
				q.Steps = append(q.Steps[:i], q.Steps[i+n:]...)
				if try(q) {
					changed = true
				}
			}
		}
		for i := 0; i < len(best.Steps); i++ {
			// Processes, unless the property ties them together.
			for j := len(best.Steps[i].Procs) - 1; j >= 0; j-- {
				if len(best.Steps[i].Procs) > 1 && best.Params["fixedprocs"] == 0 {
					q := best.clone()
					q.Steps[i].Procs = append(q.Steps[i].Procs[:j], q.Steps[i].Procs[j+1:]...)
					if try(q) {
						changed = true
						continue
					}
				}
				for k := len(best.Steps[i].Procs[j].Faults) - 1; k >= 0; k-- {
					q := best.clone()
					fs := q.Steps[i].Procs[j].Faults
					q.Steps[i].Procs[j].Faults = append(fs[:k:k], fs[k+1:]...)
					if try(q) {
						changed = true
					}
				}
				if best.Steps[i].Procs[j].Verbose > 0 {
					q := best.clone()
					q.Steps[i].Procs[j].Verbose = 0
					if try(q) {
						changed = true
					}
				}
				if best.Steps[i].Procs[j].Drip > 0 {
					q := best.clone()
					q.Steps[i].Procs[j].Drip = 0
					if try(q) {
						changed = true
					}
				}
				if len(best.Steps[i].Procs[j].Slice) > 0 {
					q := best.clone()
					s := q.Steps[i].Procs[j].Slice
					q.Steps[i].Procs[j].Slice = s[:len(s)/2]
					if try(q) {
						changed = true
					}
				}
			}
			if n := len(best.Steps[i].Sched); n > 0 {
				for _, k := range []int{0, n / 2, n - 1} {
					q := best.clone()
					q.Steps[i].Sched = q.Steps[i].Sched[:k]
					if try(q) {
						changed = true
						break
					}
				}
			}
			if b := best.Steps[i].Blob; b != nil && b.Len > 1 {
				q := best.clone()
				q.Steps[i].Blob.Len = b.Len / 2
				if try(q) {
					changed = true
				}
			}
		}
		for i := len(best.Files) - 1; i >= 0; i-- {
			q := best.clone()
			q.Files = append(q.Files[:i], q.Files[i+1:]...)
			if try(q) {
				changed = true
				continue
			}
			if b := best.Files[i].Bytes; b != nil && b.Len > 1 && b.Kind != "hex" {
				q := best.clone()
				q.Files[i].Bytes.Len = b.Len / 2
				if try(q) {
					changed = true
				}
			}
			if im := best.Files[i].Image; im != nil {
				for k := 0; ; k++ {
					cur := best.Files[i].Image
					nx := cur.shrink(k)
					if nx == nil {
						break
					}
					q := best.clone()
					q.Files[i].Image = nx
					if try(q) {
						changed = true
						k--
					}
				}
			}
		}
		if best.Cap > 0 {
			q := best.clone()
			q.Cap = 0
			if try(q) {
				changed = true
			}
		}
		if tries >= 400 || time.Now().After(deadline) {
			break
		}
	}
	// The recorded execution is the one of the plan as written to the file.
	fin := best.clone()
	nv, log := execute(pr, fin, newStats(), false)
	if nv == nil {
		fin = p.clone()
		nv, log = execute(pr, fin, newStats(), false)
		if nv == nil {
			nv = bestV
		}
	}
	_, tr := execute(pr, fin, newStats(), true)
	if len(tr) > 120 {
		tr = append(append(append([]string(nil), tr[:60]...), "..."), tr[len(tr)-60:]...)
	}
	nv.Trace = tr
	return found{Plan: fin, V: nv, Log: hash([]byte(strings.Join(log, "\n"))), Orig: planSize(p), Min: planSize(fin), Tries: tries}
}

var _ = json.Marshal
