package main

// Models of earlier feasibility queries, tried before asking the solver again.
// Answering Sat too often is harmless: an infeasible branch only carries an
// unsatisfiable path condition, which makes its obligations vacuous.

const maxWitness = 48

func (j *Job) witnessed(c *Term) bool {
	for i := len(j.witness) - 1; i >= 0; i-- {
		e := j.witness[i]
		if e.ev(c) != 0 {
			if i < len(j.witness)-1 { // most recently useful last
				copy(j.witness[i:], j.witness[i+1:])
				j.witness[len(j.witness)-1] = e
			}
			j.quickN++
			return true
		}
	}
	return false
}

func (j *Job) addWitness(m map[string]string) {
	vals := map[string]float64{}
	for _, v := range j.inputs {
		s, ok := m[v.name]
		if !ok {
			return
		}
		f, ok := modelFloat(s)
		if !ok {
			return
		}
		vals[v.name] = f
	}
	j.keepWitness(vals)
}

func (j *Job) keepWitness(vals map[string]float64) {
	if len(j.witness) >= maxWitness {
		copy(j.witness, j.witness[1:])
		j.witness = j.witness[:maxWitness-1]
	}
	j.witness = append(j.witness, newEval(vals))
}
