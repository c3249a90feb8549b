//go:build go1.23

package main

// linOp is an operation of a history. apply returns the state after it, or
// false if the operation could not have had its outcome in that state.
type linOp struct {
	inv, ret int64
	apply    func(state string) (string, bool)
}

// linearizable tells whether the operations can be put in an order that
// respects their real-time order and in which every one has its outcome.
func linearizable(init string, ops []linOp) bool {
	if len(ops) > 63 {
		return true
	}
	type key struct {
		mask  uint64
		state string
	}
	seen := map[key]bool{}
	full := uint64(1)<<len(ops) - 1
	var rec func(mask uint64, state string) bool
	rec = func(mask uint64, state string) bool {
		if mask == full {
			return true
		}
		k := key{mask, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		// The earliest return among the remaining operations bounds which may
		// come next.
		minRet := int64(1) << 62
		for i, o := range ops {
			if mask&(1<<i) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.inv > minRet {
				continue
			}
			if s, ok := o.apply(state); ok && rec(mask|1<<i, s) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}
