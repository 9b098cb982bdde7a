package model

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Op is a logic operator with arguments.
type Op struct {
	Name string
	Args []int
}

func (o Op) String() string {
	s := o.Name
	for _, a := range o.Args {
		s += fmt.Sprintf(" %d", a)
	}
	return s
}

// boolean operators: number of parents and the probability of true
var boolOps = map[string]struct {
	Arity int
	P     func(x []bool) float64
}{
	"not":             {1, func(x []bool) float64 { return b2f(!x[0]) }},
	"and":             {2, func(x []bool) float64 { return b2f(x[0] && x[1]) }},
	"not-and":         {2, func(x []bool) float64 { return b2f(!x[0] && x[1]) }},
	"and-not":         {2, func(x []bool) float64 { return b2f(x[0] && !x[1]) }},
	"not-and-not":     {2, func(x []bool) float64 { return b2f(!x[0] && !x[1]) }},
	"or":              {2, func(x []bool) float64 { return b2f(x[0] || x[1]) }},
	"not-or":          {2, func(x []bool) float64 { return b2f(!x[0] || x[1]) }},
	"or-not":          {2, func(x []bool) float64 { return b2f(x[0] || !x[1]) }},
	"not-or-not":      {2, func(x []bool) float64 { return b2f(!x[0] || !x[1]) }},
	"xor":             {2, func(x []bool) float64 { return b2f(x[0] != x[1]) }},
	"cond":            {2, func(x []bool) float64 { return b2f(implies(x[0], x[1])) }},
	"not-cond":        {2, func(x []bool) float64 { return b2f(implies(!x[0], x[1])) }},
	"cond-not":        {2, func(x []bool) float64 { return b2f(implies(x[0], !x[1])) }},
	"not-cond-not":    {2, func(x []bool) float64 { return b2f(implies(!x[0], !x[1])) }},
	"bicond":          {2, func(x []bool) float64 { return b2f(x[0] == x[1]) }},
	"if-then":         {1, func(x []bool) float64 { return when(x[0], 1) }},
	"if-not-then":     {1, func(x []bool) float64 { return when(!x[0], 1) }},
	"if-then-not":     {1, func(x []bool) float64 { return when(x[0], 0) }},
	"if-not-then-not": {1, func(x []bool) float64 { return when(!x[0], 0) }},
	"equals":          {1, func(x []bool) float64 { return b2f(x[0]) }},
	"equals-not":      {1, func(x []bool) float64 { return b2f(!x[0]) }},
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func implies(a, b bool) bool { return !a || b }

func when(cond bool, p float64) float64 {
	if cond {
		return p
	}
	return 0.5
}

// OpNames lists all operators.
var OpNames = []string{"not", "and", "not-and", "and-not", "not-and-not", "or", "not-or", "or-not", "not-or-not", "xor",
	"cond", "not-cond", "cond-not", "not-cond-not", "bicond", "if-then", "if-not-then", "if-then-not", "if-not-then-not", "equals", "equals-not",
	"count-true", "count-false", "count-is", "count-less", "count-greater", "given", "given-not", "given-excl",
	"outcome-is", "outcome-is-not", "outcome-either", "outcome-less", "outcome-greater", "bits"}

// Arity is the number of parents an operator needs, -1 if it takes any number.
func (o Op) Arity() int {
	if b, ok := boolOps[o.Name]; ok {
		return b.Arity
	}
	if strings.HasPrefix(o.Name, "outcome-") {
		return 1
	}
	return -1
}

// NumArgs is the number of arguments (-2: at least two).
func (o Op) NumArgs() int {
	switch o.Name {
	case "count-is", "count-less", "count-greater", "given", "given-not", "given-excl":
		return 1
	case "outcome-is", "outcome-is-not", "outcome-less", "outcome-greater":
		return 2
	case "outcome-either":
		return -2
	}
	return 0
}

// Valid tells whether the arguments make sense for this number of parents: 1 yes, 0 no,
// -1 not specified (count values that no count reaches, comparison with an index just past the end).
func (o Op) Valid(given int) int {
	if n := o.NumArgs(); n >= 0 && len(o.Args) != n || n == -2 && len(o.Args) < 2 {
		return 0
	}
	if a := o.Arity(); a >= 0 && given != a || given < 0 {
		return 0
	}
	switch {
	case strings.HasPrefix(o.Name, "given"):
		if o.Args[0] < 0 || o.Args[0] >= given {
			return 0
		}
	case o.Name == "count-is" || o.Name == "count-less" || o.Name == "count-greater":
		if o.Args[0] < 0 || o.Args[0] > given {
			return -1
		}
	case strings.HasPrefix(o.Name, "outcome-"):
		l := o.Args[len(o.Args)-1]
		if l < 1 || l > 65535 {
			return 0
		}
		for _, a := range o.Args[:len(o.Args)-1] {
			if a < 0 || a > l {
				return 0
			}
			if a == l {
				if o.Name == "outcome-less" || o.Name == "outcome-greater" {
					return -1
				}
				return 0
			}
		}
	case given == 0 && o.Arity() < 0:
		return -1
	}
	return 1
}

// Cols is the number of outcomes of the resulting variable.
func (o Op) Cols(given int) int {
	switch o.Name {
	case "count-true", "count-false":
		return given + 1
	case "bits":
		return 1 << given
	}
	return 2
}

// ParentCard is the number of outcomes of the parents.
func (o Op) ParentCard() int {
	if strings.HasPrefix(o.Name, "outcome-") {
		return o.Args[len(o.Args)-1]
	}
	return 2
}

// Row gives the documented distribution for the parents' outcomes.
func (o Op) Row(x []int) []float64 {
	truth := make([]bool, len(x))
	count := 0
	for i := range x {
		truth[i] = x[i] == 0
		if truth[i] {
			count++
		}
	}
	p := 0.0
	if b, ok := boolOps[o.Name]; ok {
		p = b.P(truth)
		return []float64{p, 1 - p}
	}
	switch o.Name {
	case "count-true", "count-false":
		r := make([]float64, len(x)+1)
		if o.Name == "count-false" {
			count = len(x) - count
		}
		r[count] = 1
		return r
	case "bits":
		v := 0
		for i := range truth { // the first parent is the most significant bit
			v *= 2
			if truth[i] {
				v++
			}
		}
		r := make([]float64, 1<<len(x))
		r[v] = 1
		return r
	case "count-is":
		p = b2f(count == o.Args[0])
	case "count-less":
		p = b2f(count < o.Args[0])
	case "count-greater":
		p = b2f(count > o.Args[0])
	case "given":
		p = b2f(truth[o.Args[0]])
	case "given-not":
		p = b2f(!truth[o.Args[0]])
	case "given-excl":
		p = b2f(truth[o.Args[0]] && count == 1)
	case "outcome-is":
		p = b2f(x[0] == o.Args[0])
	case "outcome-is-not":
		p = b2f(x[0] != o.Args[0])
	case "outcome-either":
		for _, a := range o.Args[:len(o.Args)-1] {
			if x[0] == a {
				p = 1
			}
		}
	case "outcome-less":
		p = b2f(x[0] < o.Args[0])
	case "outcome-greater":
		p = b2f(x[0] > o.Args[0])
	}
	return []float64{p, 1 - p}
}

// Table gives the documented table, first parent slowest.
func (o Op) Table(given int) []float64 {
	card := o.ParentCard()
	x := make([]int, given)
	t := []float64{}
	for {
		t = append(t, o.Row(x)...)
		k := given - 1
		for ; k >= 0; k-- {
			if x[k]++; x[k] < card {
				break
			}
			x[k] = 0
		}
		if k < 0 {
			return t
		}
	}
}

// GenOp draws an operator with valid arguments (Valid != 0) and a number of parents.
func GenOp(t *rapid.T, maxGiven int) (Op, int) {
	o := Op{Name: rapid.SampledFrom(OpNames).Draw(t, "op")}
	given := o.Arity()
	if given < 0 {
		lo := 0
		if strings.HasPrefix(o.Name, "given") {
			lo = 1
		}
		hi := maxGiven
		if o.Name == "bits" {
			// the table has 4^given values
			hi = min(hi, 7)
		}
		given = Intn(t, "given", lo, hi)
	}
	GenArgs(t, &o, given)
	return o, given
}

// GenLargeOp draws an operator for any number of parents, and uses it with many.
func GenLargeOp(t *rapid.T) (Op, int) {
	names := []string{}
	for _, n := range OpNames {
		if (&Op{Name: n}).Arity() < 0 {
			names = append(names, n)
		}
	}
	o := Op{Name: rapid.SampledFrom(names).Draw(t, "op")}
	given := rapid.SampledFrom([]int{12, 13, 14, 15, 16, 17, 18}).Draw(t, "given")
	if o.Name == "bits" {
		given = rapid.SampledFrom([]int{8, 9, 10, 11}).Draw(t, "given bits")
	}
	GenArgs(t, &o, given)
	return o, given
}

// GenArgs draws valid arguments.
func GenArgs(t *rapid.T, o *Op, given int) {
	o.Args = nil
	switch {
	case strings.HasPrefix(o.Name, "given"):
		o.Args = []int{Intn(t, "idx", 0, given-1)}
	case o.NumArgs() == 1:
		o.Args = []int{Intn(t, "value", 0, given)}
		if Pct(t, "outside", 10) {
			o.Args[0] = rapid.SampledFrom([]int{-1, given + 1, 1 << 40, -1 << 62}).Draw(t, "outval")
		}
	case strings.HasPrefix(o.Name, "outcome-"):
		l := Intn(t, "length", 1, 9)
		if Pct(t, "long", 8) {
			l = Intn(t, "length+", 10, 600)
		}
		k := 1
		if o.Name == "outcome-either" {
			k = Intn(t, "indices", 1, 4)
			if Pct(t, "many", 10) {
				k = Intn(t, "indices+", 5, 80)
			}
		}
		for j := 0; j < k; j++ {
			o.Args = append(o.Args, Intn(t, "outcome", 0, l-1))
		}
		if (o.Name == "outcome-less" || o.Name == "outcome-greater") && Pct(t, "end", 10) {
			o.Args[0] = l
		}
		o.Args = append(o.Args, l)
	}
}
