package vsched

// store is the set of visited states: happens-before signature -> for each number of remaining
// faults the largest number of remaining preemptions it was explored with.
type store struct {
	ents []ent
	n    int
	max  int
	full bool
}

type ent struct {
	key uint64
	p   [8]int8 // value+1; 0 = never
}

func newStore(max int) *store { return &store{ents: make([]ent, 1<<12), max: max} }

//go:norace
func (s *store) reset() {
	for i := range s.ents {
		s.ents[i] = ent{}
	}
	s.n = 0
	s.full = false
}

//go:norace
func (s *store) seen(key uint64, remP, remF int) bool {
	if key == 0 {
		key = 1
	}
	if remF > 7 {
		remF = 7
	}
	if remP > 100 {
		remP = 100
	}
	if remF < 0 || remP < 0 {
		return false
	}
	m := uint64(len(s.ents) - 1)
	i := key & m
	for s.ents[i].key != 0 {
		if s.ents[i].key == key {
			e := &s.ents[i]
			for f := remF; f < 8; f++ {
				if int(e.p[f]) >= remP+1 {
					return true
				}
			}
			e.p[remF] = int8(remP + 1)
			return false
		}
		i = (i + 1) & m
	}
	if s.full {
		return false
	}
	e := &s.ents[i]
	e.key = key
	e.p[remF] = int8(remP + 1)
	s.n++
	if s.n*2 > len(s.ents) {
		if len(s.ents) >= s.max {
			if s.n*4 > len(s.ents)*3 {
				s.full = true
			}
			return false
		}
		old := s.ents
		s.ents = make([]ent, len(old)*2)
		m = uint64(len(s.ents) - 1)
		for j := range old {
			if old[j].key == 0 {
				continue
			}
			i = old[j].key & m
			for s.ents[i].key != 0 {
				i = (i + 1) & m
			}
			s.ents[i] = old[j]
		}
	}
	return false
}
