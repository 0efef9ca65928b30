package harness

// kv is a small map without the race-detector hooks that built-in maps carry
// even in uninstrumented code: state that observers of the simulated programs
// touch from many tasks must neither report races nor order the tasks.
type kv struct{ first, last *kvNode }

type kvNode struct {
	k    string
	n    int64
	s    string
	next *kvNode
}

func (m *kv) find(k string) *kvNode {
	for x := m.first; x != nil; x = x.next {
		if x.k == k {
			return x
		}
	}
	return nil
}

// at returns the entry of k, which it creates if need be.
func (m *kv) at(k string) *kvNode {
	if x := m.find(k); x != nil {
		return x
	}
	x := &kvNode{k: k}
	if m.last == nil {
		m.first = x
	} else {
		m.last.next = x
	}
	m.last = x
	return x
}

func (m *kv) has(k string) bool { return m.find(k) != nil }

func (m *kv) del(k string) {
	var prev *kvNode
	for x := m.first; x != nil; prev, x = x, x.next {
		if x.k != k {
			continue
		}
		if prev == nil {
			m.first = x.next
		} else {
			prev.next = x.next
		}
		if m.last == x {
			m.last = prev
		}
		return
	}
}
