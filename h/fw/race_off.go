//go:build !race

package fw

const raceEnabled = false
