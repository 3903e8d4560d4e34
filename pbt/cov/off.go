//go:build !cov

// Package cov watches what code built with -d=libfuzzer executes: which edges,
// and what it compares with what. Without the build tag "cov" it does nothing.
package cov

const Enabled = false

// Begin starts an observed execution.
func Begin() {}

// End ends it, and says whether it did anything no execution did before.
func End() bool { return false }

// Edges and Compared are how many edges, and results of comparisons, were seen.
func Edges() int    { return 0 }
func Compared() int { return 0 }

// Work is how many comparisons there were in this execution up to now.
func Work() int { return 0 }

// Operands are pairs of numbers compared in the last execution.
func Operands() [][2]uint64 { return nil }

// Constants are constants that numbers were compared with in any execution.
func Constants() []uint64 { return nil }

// Strings are strings compared in any execution.
func Strings() []string { return nil }
