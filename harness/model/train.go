package model

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// Sample is a training sample: outcomes (-1 missing) and utilities (NaN missing), by variable.
type Sample struct {
	Out  []int
	Util []float64
}

// GenSamples draws training data. `cover` is the percentage of networks for which all rows get data.
func GenSamples(t *rapid.T, n *Net, cover int) []Sample {
	all := Pct(t, "cover", cover)
	missing := rapid.SampledFrom([]int{0, 0, 3, 15}).Draw(t, "missing")
	style := Intn(t, "ustyle", 0, 2)
	draw := func(fixed map[int]int) Sample {
		s := Sample{Out: make([]int, len(n.Vars)), Util: make([]float64, len(n.Vars))}
		for i := range n.Vars {
			s.Util[i] = math.NaN()
			s.Out[i] = -1
			o, ok := fixed[i]
			switch {
			case n.Vars[i].Kind == Utility:
				if ok || !Pct(t, "nan", missing) {
					switch style {
					case 0:
						s.Util[i] = float64(Intn(t, "util", -9, 9))
					case 1:
						s.Util[i] = float64(Intn(t, "util", -1000, 1000)) / 8
					default:
						s.Util[i] = float64(Intn(t, "util", -1000000, 1000000)) / 1000
					}
				}
			case ok:
				s.Out[i] = o
			case !Pct(t, "none", missing):
				s.Out[i] = Intn(t, "out", 0, n.Card(i)-1)
			}
		}
		return s
	}
	r := []Sample{}
	for k := Intn(t, "random", 0, 12); k > 0; k-- {
		r = append(r, draw(nil))
	}
	if all {
		for i := range n.Vars {
			if n.Vars[i].Kind == Decision || i == n.Total {
				continue
			}
			x := make([]int, len(n.Vars[i].Parents))
			for row := 0; row < n.Rows(i); row++ {
				q := row
				fixed := map[int]int{}
				for b := len(x) - 1; b >= 0; b-- {
					p := n.Vars[i].Parents[b]
					fixed[p] = q % n.Card(p)
					q /= n.Card(p)
				}
				if n.Vars[i].Kind == Chance {
					fixed[i] = Intn(t, "cov", 0, n.Card(i)-1)
				} else {
					fixed[i] = 0
				}
				// only if no sample is usable for this row so far
				usable := false
				for _, s := range r {
					if k, ok := n.sampleRow(i, s); ok && k == row {
						usable = true
						break
					}
				}
				if !usable || Pct(t, "again", 20) {
					r = append(r, draw(fixed))
				}
			}
		}
	}
	p := Perm(t, "order", len(r))
	s := make([]Sample, len(r))
	for i, j := range p {
		s[i] = r[j]
	}
	return s
}

// sampleRow is the table row a sample belongs to, if it is usable for the variable.
func (n *Net) sampleRow(i int, s Sample) (int, bool) {
	row := 0
	for _, p := range n.Vars[i].Parents {
		if s.Out[p] < 0 {
			return 0, false
		}
		row = row*n.Card(p) + s.Out[p]
	}
	if n.Vars[i].Kind == Utility {
		return row, !math.IsNaN(s.Util[i])
	}
	return row, s.Out[i] >= 0
}

// Train gives the network with trained tables, or false if some row has no data. Abs is the scale of utilities.
func (n *Net) Train(samples []Sample) (*Net, bool) {
	m := n.Clone()
	ok := true
	for i := range n.Vars {
		v := &m.Vars[i]
		if v.Kind == Decision || i == n.Total || len(v.Table) == 0 {
			continue
		}
		c := len(v.Outcomes)
		rows := n.Rows(i)
		sum := make([]float64, rows*c)
		cnt := make([]int, rows)
		for _, s := range samples {
			row, use := n.sampleRow(i, s)
			if !use {
				continue
			}
			cnt[row]++
			if v.Kind == Utility {
				sum[row] += s.Util[i]
			} else {
				sum[row*c+s.Out[i]]++
			}
		}
		for row := range cnt {
			if cnt[row] == 0 {
				ok = false
			}
			for k := 0; k < c; k++ {
				v.Table[row*c+k] = sum[row*c+k] / float64(cnt[row])
			}
		}
	}
	return m, ok
}

// SamplesString renders samples.
func SamplesString(s []Sample) string {
	r := ""
	for _, x := range s {
		r += fmt.Sprintf("%v %v\n", x.Out, x.Util)
	}
	return r
}
