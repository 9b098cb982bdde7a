package core

import (
	"strconv"

	"verif/model"

	"pgregory.net/rapid"
)

func itoa(i int) string { return strconv.Itoa(i) }

// querySize gives the largest number of query variables: mostly small.
func querySize(t *rapid.T) int {
	if model.Pct(t, "large query", 10) {
		return 7
	}
	return 3
}

// panics tells whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}
