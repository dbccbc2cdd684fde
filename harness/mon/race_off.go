//go:build !race

package mon

// RaceEnabled is true in race instrumented builds.
const RaceEnabled = false
