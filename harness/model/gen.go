package model

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Opt steers the network generator.
type Opt struct {
	MinChance, MaxChance int
	MinDec, MaxDec       int
	MinUtil, MaxUtil     int
	Total                int // percent of networks with utilities that get a total-utility node
	MaxOut               int
	MaxParents           int
	Wide                 bool // many variables with almost as many outcomes as possible
	Dense                int  // percent of chance variables with as many parents as possible
	MaxStates            int
	Exact                bool // dyadic probabilities, integer utilities: all arithmetic is exact
	ZeroRows             bool // allow rows of zeros in chance tables
	Weird                bool // names that look like syntax
	Cli                  bool // names usable in command line evidence (with Weird)
	Deco                 bool // positions, colours, info
	DecOut               int  // maximal outcomes of decisions (0: as MaxOut)
	NoObs                int  // percent of multi-decision networks without any observation arcs
	Tidy                 bool // short names that fit into boxes
	OddColors            bool // colours beyond those of the visualisation
	Unit                 bool // exact tables have rows that sum to one
}

// Std is a good default for networks without decisions.
func Std() Opt {
	return Opt{MinChance: 1, MaxChance: 7, MaxOut: 4, MaxParents: 4, MaxStates: 4000, ZeroRows: true, Weird: true}
}

var uniform sync.Map

// Intn draws an int in [lo, hi]: uniformly if the range is small, otherwise with rapid's preference
// for small values.
func Intn(t *rapid.T, label string, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	if hi-lo < 128 {
		key := [2]int{lo, hi}
		g, ok := uniform.Load(key)
		if !ok {
			xs := make([]int, 0, hi-lo+1)
			if lo < 0 && hi > 0 { // shrink towards zero
				xs = append(xs, 0)
			}
			for x := lo; x <= hi; x++ {
				if x != 0 || lo >= 0 {
					xs = append(xs, x)
				}
			}
			if lo < 0 && hi <= 0 && len(xs) != hi-lo+1 {
				xs = append(xs, 0)
			}
			g, _ = uniform.LoadOrStore(key, rapid.SampledFrom(xs))
		}
		return g.(*rapid.Generator[int]).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Pct is true with the given percentage.
func Pct(t *rapid.T, label string, pct int) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	// rapid's integers are biased towards small values: mix them (0 stays 0, i.e. false, for shrinking)
	v := uint64(rapid.IntRange(0, 1<<20).Draw(t, label)) * 0x9E3779B97F4A7C15
	v ^= v >> 29
	v *= 0xBF58476D1CE4E5B9
	v ^= v >> 32
	return int(v%100) >= 100-pct
}

// Perm draws a permutation of 0..n-1.
func Perm(t *rapid.T, label string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 {
		return p
	}
	return rapid.Permutation(p).Draw(t, label)
}

// Subset draws an ordered subset (random order) of xs with lo..hi elements.
func Subset(t *rapid.T, label string, xs []int, lo, hi int) []int {
	if hi > len(xs) {
		hi = len(xs)
	}
	if lo > hi {
		lo = hi
	}
	k := Intn(t, label+"#", lo, hi)
	pool := append([]int{}, xs...)
	r := make([]int, 0, k)
	for j := 0; j < k; j++ {
		i := Intn(t, label, 0, len(pool)-1)
		r = append(r, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	return r
}

var weirdNames = []string{"", "true", "false", "yes", "no", "1", "0.5", "null", "~", "a b", "x:y", "k: v", "- z", "#c", "[q]", "{k}", "'s", "\"d\"", "é", "ñ 中", "a=b", "c,d", " lead", "trail ", "%", "&a", "*b", "!t", "|", ">", "@", "`", "?", "0x1F", "1e3", ".inf", "NaN", "on", "off", "=", "<<", "A\tB", "x\\n", "new\nline", "total", "<xml>", "&amp;", "🙂", "1_000", "2001-01-01", "012", "---", "...", "line\n", "\nlead", "\t", longName, longName + longName}

const longName = "a rather long name with blanks that a writer may want to fold over several lines"

var cliNames = []string{"true", "yes", "1", "0.5", "null", "a b", "x:y", "#c", "[q]", "{k}", "é", "ñ中", "%d", "%", "*b", "total", "NaN", "x-y", "x_y", "()", "+1", "a-rather-long-name-of-more-than-forty-characters", "nameoftwentyfivecharacters"}

func (o *Opt) name(t *rapid.T, used map[string]bool, prefix string, i int) string {
	n := fmt.Sprintf("%s%d", prefix, i)
	if o.Weird && Pct(t, "weird", 30) {
		pool := weirdNames
		if o.Cli {
			pool = cliNames
		}
		n = rapid.SampledFrom(pool).Draw(t, "name")
		if n == "" && prefix == "U" {
			n = "U" // an empty name stands for the total utility in requests
		}
	}
	if o.Weird && len(used) > 0 && Pct(t, "variant", 12) {
		// a name that is told from an earlier one only by the case of letters or by blanks
		keys := make([]string, 0, len(used))
		for k := range used {
			if k != "" {
				keys = append(keys, k)
			}
		}
		if len(keys) > 0 {
			sort.Strings(keys)
			n = keys[Intn(t, "like", 0, len(keys)-1)]
			hi := 5
			if o.Cli {
				hi = 2
			}
			switch Intn(t, "how", 0, hi) {
			case 0:
				n = strings.ToLower(n)
			case 1:
				n = strings.ToUpper(n)
			case 2:
				n = n + n[:1]
				if !utf8.ValidString(n) {
					n = n[:len(n)-1]
				}
			case 3:
				n = n + " "
			case 4:
				n = " " + n
			default:
				n = "x" + n
			}
		}
	}
	for k := 0; used[n]; k++ {
		n = fmt.Sprintf("%s%d_%d", prefix, i, k)
	}
	used[n] = true
	return n
}

// Colors known to the visualisation.
var Colors = []string{"black", "maroon", "green", "olive", "navy", "purple", "teal", "silver", "gray", "red", "lime", "yellow", "blue", "fuchsia", "aqua", "white"}

// GenNet draws a network.
func GenNet(t *rapid.T, o Opt) *Net {
	if o.MaxStates == 0 {
		o.MaxStates = 4000
	}
	nC := Intn(t, "chance", o.MinChance, o.MaxChance)
	nD := Intn(t, "decisions", o.MinDec, o.MaxDec)
	nU := Intn(t, "utilities", o.MinUtil, o.MaxUtil)
	if big := o.MaxChance > 2 && !o.Tidy && Pct(t, "large", 8); big {
		// now and then networks beyond the usual size, in one respect
		switch Intn(t, "large in", 0, 2) {
		case 0:
			nC += Intn(t, "chance+", 1, 4)
		case 1:
			if o.MaxUtil > 1 {
				nU += Intn(t, "utilities+", 1, 4)
				if Pct(t, "utilities++", 30) {
					nU += Intn(t, "many utilities", 4, 10)
				}
			}
		default:
			if o.MaxDec > 1 {
				nC = min(nC, 3)
				nD += Intn(t, "decisions+", 1, 2)
			}
		}
	}
	total := nU > 0 && Pct(t, "total", o.Total)
	noObs := nD > 1 && Pct(t, "noobs", o.NoObs)

	// now and then many variables with a single outcome, that give long lists of parents
	crowd := 0
	if o.MaxChance > 2 && !o.Tidy && Pct(t, "crowd", 4) {
		crowd = Intn(t, "crowd#", 6, 13)
		if Pct(t, "huge crowd", 8) {
			crowd = Intn(t, "crowd+", 55, 270)
		}
		nC += crowd
	}

	nNon := nC + nD
	// topological sequence of kinds
	kinds := make([]Kind, nNon)
	for _, i := range Perm(t, "kinds", nNon-crowd)[:nD] {
		kinds[crowd+i] = Decision
	}
	all := nNon + nU
	if total {
		all++
	}
	// declaration position of each topological position
	decl := Perm(t, "decl", all)

	n := &Net{Name: "net", Total: -1, Vars: make([]Var, all), Topo: decl}
	used := map[string]bool{}
	budget := o.MaxStates

	for k := 0; k < nNon; k++ {
		i := decl[k]
		v := &n.Vars[i]
		v.Kind = kinds[k]
		pre := "C"
		if v.Kind == Decision {
			pre = "D"
		}
		v.Name = o.name(t, used, pre, k)
		// outcomes
		rest := nNon - k - 1
		cap := budget
		for j := 0; j < rest && cap > 1; j++ {
			cap /= 2
		}
		hi := o.MaxOut
		if v.Kind == Decision && o.DecOut > 0 {
			hi = o.DecOut
		}
		if hi > cap {
			hi = cap
		}
		if hi < 1 {
			hi = 1
		}
		c := 2
		switch z := Intn(t, "card", 0, 11); {
		case z <= 5:
			c = 2
		case z <= 8:
			c = 3
		case z == 9:
			c = 1
		default:
			c = Intn(t, "card+", 2, hi)
		}
		if o.Wide && Pct(t, "wide", 60) {
			c = Intn(t, "wide#", max(1, hi-5), hi)
		}
		if c > hi {
			c = hi
		}
		if k < crowd {
			c = 1
		}
		budget /= c
		if budget < 1 {
			budget = 1
		}
		uo := map[string]bool{}
		for j := 0; j < c; j++ {
			v.Outcomes = append(v.Outcomes, o.name(t, uo, "o", j))
		}
		// parents
		prev := append([]int{}, decl[:k]...)
		if v.Kind == Chance {
			lo := 0
			if o.Dense > 0 && Pct(t, "many parents", o.Dense) {
				lo = min(len(prev), o.MaxParents)
			}
			v.Parents = Subset(t, "par", prev, lo, o.MaxParents)
			if k >= crowd && crowd > 0 && Pct(t, "in crowd", 60) {
				v.Parents = union(t, v.Parents, prev[:crowd])
			}
		} else if !noObs {
			// perfect recall: earlier decisions and everything they observed
			set := map[int]bool{}
			must := []int{}
			add := func(p int) {
				if !set[p] {
					set[p] = true
					must = append(must, p)
				}
			}
			for _, p := range prev {
				if n.Vars[p].Kind == Decision {
					add(p)
					for _, q := range n.Vars[p].Parents {
						add(q)
					}
				}
			}
			free := []int{}
			for _, p := range prev {
				if !set[p] {
					free = append(free, p)
				}
			}
			for _, p := range Subset(t, "obs", free, 0, 2) {
				add(p)
			}
			if crowd > 0 && Pct(t, "in crowd", 30) {
				for _, p := range prev[:crowd] {
					add(p)
				}
			}
			for _, j := range Perm(t, "obsperm", len(must)) {
				v.Parents = append(v.Parents, must[j])
			}
		}
	}
	non := append([]int{}, decl[:nNon]...)
	for k := nNon; k < nNon+nU; k++ {
		i := decl[k]
		v := &n.Vars[i]
		v.Kind = Utility
		v.Name = o.name(t, used, "U", k-nNon)
		v.Outcomes = []string{o.name(t, map[string]bool{}, "u", 0)}
		lo, hi := 1, 3
		if Pct(t, "other upar", 10) {
			hi = 5
		}
		v.Parents = Subset(t, "upar", non, lo, hi)
		if crowd > 0 && Pct(t, "in crowd", 40) {
			v.Parents = union(t, v.Parents, non[:crowd])
		}
	}
	if total {
		i := decl[all-1]
		n.Total = i
		v := &n.Vars[i]
		v.Kind = Utility
		v.Name = o.name(t, used, "T", 0)
		v.Parents = Subset(t, "tpar", decl[nNon:nNon+nU], nU, nU)
		uo := map[string]bool{}
		for j := range v.Parents {
			v.Outcomes = append(v.Outcomes, o.name(t, uo, "w", j))
		}
	}

	// tables
	scale := 10.0
	if !o.Exact && !o.Cli && !o.Tidy && nU > 0 && Pct(t, "uscale?", 10) {
		scale = rapid.SampledFrom([]float64{1, 7, 1e-6, 1e9, 1e-12}).Draw(t, "uscale")
	}
	wscale := 4.0
	if !o.Exact && !o.Cli && !o.Tidy && n.Total >= 0 && Pct(t, "wscale?", 40) {
		wscale = rapid.SampledFrom([]float64{10, 7, 1e-3, 3e6}).Draw(t, "wscale")
	}
	for _, i := range decl {
		v := &n.Vars[i]
		switch {
		case v.Kind == Chance:
			v.Table = o.chanceTable(t, n.Rows(i), len(v.Outcomes))
		case v.Kind == Utility && i == n.Total:
			v.Table = make([]float64, len(v.Parents))
			for j := range v.Table {
				v.Table[j] = float64(Intn(t, "w", -4, 12)) / wscale
			}
		case v.Kind == Utility:
			v.Table = make([]float64, n.Rows(i))
			for j := range v.Table {
				if o.Exact {
					v.Table[j] = float64(Intn(t, "u", -8, 8))
				} else {
					v.Table[j] = float64(Intn(t, "u", -500, 1000)) / scale
				}
			}
		}
	}

	n.FactorPerm = Perm(t, "factors", all)
	n.OmitFactor = make([]bool, all)
	for _, i := range n.Of(Decision) {
		n.OmitFactor[i] = Pct(t, "omit", 40)
	}

	if o.Deco {
		n.Name = rapid.SampledFrom([]string{"net", "My Net", "a: b", "", "é", "x #y", "123", " net ", "two  blanks"}).Draw(t, "netname")
		n.Info = rapid.SampledFrom([]string{"", "info", "two\nlines\n", "  lead: x\n\n - list\n", "trail \n\n", "ünï\ttab", "a: [b]", "\n", "%d %s"}).Draw(t, "info")
		for i := range n.Vars {
			n.Vars[i].Pos = [2]int{Intn(t, "x", 0, 120), Intn(t, "y", 0, 60)}
			if Pct(t, "far", 6) {
				n.Vars[i].Pos = [2]int{Intn(t, "x", -120, 30000), Intn(t, "y", -60, 2000)}
			}
			if o.OddColors && Pct(t, "very far", 4) {
				n.Vars[i].Pos = [2]int{rapid.SampledFrom([]int{-1 << 31, -70000, -5000, 40000, 70000, 1 << 40}).Draw(t, "x+"), rapid.SampledFrom([]int{-70000, -3000, 0, 5000, 70000, 1 << 40}).Draw(t, "y+")}
			}
			if Pct(t, "col?", 50) {
				n.Vars[i].Color = rapid.SampledFrom(Colors).Draw(t, "color")
				if o.OddColors && Pct(t, "odd color", 15) {
					n.Vars[i].Color = rapid.SampledFrom([]string{"Red", "DarkGreen", "#ff0000", "#FFF", "light blue", "AQUA", " red", "0x10", "12", "no color: none"}).Draw(t, "odd")
				}
			}
		}
	}
	return n
}

// union adds elements to a list, and shuffles it.
func union(t *rapid.T, xs, more []int) []int {
	set := map[int]bool{}
	all := []int{}
	for _, x := range append(append([]int{}, xs...), more...) {
		if !set[x] {
			set[x] = true
			all = append(all, x)
		}
	}
	r := make([]int, len(all))
	for a, b := range Perm(t, "union", len(all)) {
		r[a] = all[b]
	}
	return r
}

func (o *Opt) chanceTable(t *rapid.T, rows, cols int) []float64 {
	tab := make([]float64, 0, rows*cols)
	den := 8
	if cols > 4 {
		den = 16
	}
	for den < cols {
		den *= 2
	}
	style := 0
	if !o.Exact {
		style = Intn(t, "style", 0, 7)
	}
	positive := Pct(t, "positive", 60)
	scale := 1.0
	if style == 6 {
		scale = rapid.SampledFrom([]float64{1, 1e-9, 1e-100, 1e9, 1e100, 1e-270, 1e270}).Draw(t, "scale")
	}
	// rows that sum to a power of two; dividing by it is exact
	unit := o.Exact && !o.Unit && Pct(t, "row scale", 25)
	digits := 100.0
	if style == 7 && Pct(t, "digits", 65) {
		digits = 1000
	}
	for r := 0; r < rows; r++ {
		row := make([]float64, cols)
		switch style {
		case 0, 1: // dyadic, sums to one exactly
			left := den
			for c := 0; c < cols-1; c++ {
				lo, hi := 0, left
				if positive {
					lo, hi = 1, left-(cols-1-c)
				}
				k := Intn(t, "p", lo, hi)
				row[c] = float64(k) / float64(den)
				left -= k
			}
			row[cols-1] = float64(left) / float64(den)
		case 2: // deterministic
			row[Intn(t, "det", 0, cols-1)] = 1
		case 3: // not normalised, with zeros
			s := 0.0
			for c := range row {
				row[c] = float64(Intn(t, "p", 0, 6))
				s += row[c]
			}
			if s == 0 {
				row[Intn(t, "det", 0, cols-1)] = 2.5
			}
		case 4: // percent
			for c := range row {
				row[c] = float64(Intn(t, "p", 1, 10000)) / 100
			}
		case 7: // rounded: the sum is almost one
			sum := 0.0
			for c := range row {
				row[c] = float64(Intn(t, "p", 1, 30))
				sum += row[c]
			}
			for c := range row {
				row[c] = math.Round(row[c]/sum*digits) / digits
			}
		case 6: // rare events, rows of any magnitude
			for c := range row {
				row[c] = scale * float64(Intn(t, "p", 1, 9)) * rapid.SampledFrom([]float64{1, 1, 1, 1e-3, 1e-6, 1e-12, 1e-25}).Draw(t, "rare")
			}
		default: // positive, wide range
			for c := range row {
				row[c] = float64(Intn(t, "p", 1, 1000)) / 1000
				if Pct(t, "tiny", 5) {
					row[c] /= 1e6
				}
			}
		}
		if unit {
			f := math.Ldexp(1, Intn(t, "row factor", -2, 7))
			for c := range row {
				row[c] *= f
			}
		}
		if o.ZeroRows && style >= 2 && Pct(t, "zero", 3) {
			for c := range row {
				row[c] = 0
			}
		}
		tab = append(tab, row...)
	}
	return tab
}

// GenEvidence draws evidence over a subset of the given variables.
func GenEvidence(t *rapid.T, n *Net, over []int, max int) map[int]int {
	ev := map[int]int{}
	if len(over) > max && Pct(t, "much evidence", 8) {
		max = len(over)
	}
	for _, i := range Subset(t, "ev", over, 0, max) {
		ev[i] = Intn(t, "evo", 0, n.Card(i)-1)
	}
	return ev
}

// Without gives xs minus the evidence variables.
func Without(xs []int, ev map[int]int) []int {
	r := []int{}
	for _, x := range xs {
		if _, ok := ev[x]; !ok {
			r = append(r, x)
		}
	}
	return r
}

// LargeTable draws a network that has a chance variable with a long table (and maybe a utility with one):
// the entries are pseudo-random, from a drawn seed.
func LargeTable(t *rapid.T, minCells int) *Net {
	n := &Net{Name: "large", Total: -1}
	cells := 1
	own := Intn(t, "own", 2, 5)
	for k := 0; cells*own < minCells; k++ {
		c := min(Intn(t, "outcomes", 3, 40), 1+minCells/(cells*own))
		v := Var{Name: fmt.Sprintf("P%d", k)}
		for j := 0; j < c; j++ {
			v.Outcomes = append(v.Outcomes, fmt.Sprintf("o%d", j))
		}
		n.Vars = append(n.Vars, v)
		cells *= c
	}
	child := Var{Name: "X", Parents: Perm(t, "parents", len(n.Vars))}
	for j := 0; j < own; j++ {
		child.Outcomes = append(child.Outcomes, fmt.Sprintf("x%d", j))
	}
	n.Vars = append(n.Vars, child)
	if Pct(t, "utility", 50) {
		n.Vars = append(n.Vars, Var{Name: "U", Kind: Utility, Outcomes: []string{"u"}, Parents: Perm(t, "parents of the utility", len(n.Vars))})
	}
	x := uint64(Intn(t, "seed", 0, 1<<20))
	next := func() float64 {
		x += 0x9E3779B97F4A7C15
		z := (x ^ x>>30) * 0xBF58476D1CE4E5B9
		z = (z ^ z>>27) * 0x94D049BB133111EB
		return float64(1+(z^z>>31)%1000) / 1000
	}
	for i := range n.Vars {
		n.Topo = append(n.Topo, i)
		v := &n.Vars[i]
		v.Table = make([]float64, n.Rows(i)*len(v.Outcomes))
		for k := range v.Table {
			v.Table[k] = next()
		}
	}
	n.FactorPerm = Perm(t, "factors", len(n.Vars))
	n.OmitFactor = make([]bool, len(n.Vars))
	return n
}
