package rt

import "unsafe"

// Containers used inside the simulator instead of built-in maps: the runtime's
// map functions carry race-detector hooks even in uninstrumented code.

// None is generic: the instantiations of a generic type may be compiled with a
// package that uses them, and then carry that package's race hooks.

// pmap maps the addresses of channels to their state.
type pmap struct {
	keys []unsafe.Pointer
	vals []*chanState
	n    int
}

func hashPtr(p unsafe.Pointer) uint64 {
	x := uint64(uintptr(p))
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func (m *pmap) get(p unsafe.Pointer) (v *chanState, ok bool) {
	if len(m.keys) == 0 {
		return v, false
	}
	mask := uint64(len(m.keys) - 1)
	for i := hashPtr(p) & mask; ; i = (i + 1) & mask {
		k := m.keys[i]
		if k == p {
			return m.vals[i], true
		}
		if k == nil {
			return v, false
		}
	}
}

func (m *pmap) put(p unsafe.Pointer, v *chanState) {
	if (m.n+1)*2 > len(m.keys) {
		ok, ov := m.keys, m.vals
		sz := 64
		if len(ok) > 0 {
			sz = len(ok) * 2
		}
		m.keys = make([]unsafe.Pointer, sz)
		m.vals = make([]*chanState, sz)
		m.n = 0
		for i := range ok {
			if ok[i] != nil {
				m.put(ok[i], ov[i])
			}
		}
	}
	mask := uint64(len(m.keys) - 1)
	for i := hashPtr(p) & mask; ; i = (i + 1) & mask {
		if m.keys[i] == p {
			m.vals[i] = v
			return
		}
		if m.keys[i] == nil {
			m.keys[i] = p
			m.vals[i] = v
			m.n++
			return
		}
	}
}

// smap maps strings to values and keeps insertion order; small sizes only.
type smap struct {
	keys []string
	vals []any
	idx  []int32
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (m *smap) find(k string) int {
	if len(m.idx) == 0 {
		for i := range m.keys {
			if m.keys[i] == k {
				return i
			}
		}
		return -1
	}
	mask := uint64(len(m.idx) - 1)
	for i := hashStr(k) & mask; ; i = (i + 1) & mask {
		j := m.idx[i]
		if j == 0 {
			return -1
		}
		if m.keys[j-1] == k {
			return int(j - 1)
		}
	}
}

func (m *smap) get(k string) (v any, ok bool) {
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return v, false
}

func (m *smap) rebuild() {
	if len(m.keys) <= 8 {
		m.idx = nil
		return
	}
	sz := 32
	for sz < 3*len(m.keys) {
		sz *= 2
	}
	m.idx = make([]int32, sz)
	mask := uint64(sz - 1)
	for j, k := range m.keys {
		for i := hashStr(k) & mask; ; i = (i + 1) & mask {
			if m.idx[i] == 0 {
				m.idx[i] = int32(j + 1)
				break
			}
		}
	}
}

func (m *smap) put(k string, v any) {
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	if len(m.idx) == 0 || 2*len(m.keys) > len(m.idx) {
		m.rebuild()
		return
	}
	mask := uint64(len(m.idx) - 1)
	for i := hashStr(k) & mask; ; i = (i + 1) & mask {
		if m.idx[i] == 0 {
			m.idx[i] = int32(len(m.keys))
			return
		}
	}
}

func (m *smap) del(k string) {
	i := m.find(k)
	if i < 0 {
		return
	}
	for j := i; j+1 < len(m.keys); j++ {
		m.keys[j] = m.keys[j+1]
		m.vals[j] = m.vals[j+1]
	}
	n := len(m.keys) - 1
	var zv any
	m.keys[n] = ""
	m.vals[n] = zv
	m.keys = m.keys[:n]
	m.vals = m.vals[:n]
	m.rebuild()
}

// imap is an smap of files.
type imap struct{ smap }

func (m *imap) get(k string) (*Inode, bool) {
	v, ok := m.smap.get(k)
	if !ok {
		return nil, false
	}
	return v.(*Inode), true
}

func (m *imap) put(k string, n *Inode) { m.smap.put(k, n) }

// counter returns the counter kept under k, made on first use.
func (m *smap) counter(k string) *int {
	if v, ok := m.get(k); ok {
		return v.(*int)
	}
	c := new(int)
	m.put(k, c)
	return c
}

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

// NewRand returns a generator for a seed.
func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

// Uint64 returns the next value.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Float returns a value in [0,1).
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Chance is true with probability p.
func (r *Rand) Chance(p float64) bool { return r.Float() < p }

func cloneBytes(p []byte) []byte {
	if p == nil {
		return nil
	}
	q := make([]byte, len(p))
	for len(p) > 0 { // memmove: no race hooks for pointer-free elements
		copy(q, p)
		break
	}
	return q
}
