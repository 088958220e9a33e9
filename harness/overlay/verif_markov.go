package modelchecker

// Added to the package by the build of the checks (go build -overlay): access to what its tests use.

import "fizz/proto"

// VerifSteadyState is the analysis from the initial state.
func VerifSteadyState(root *Node, m *proto.PerformanceModel) ([]float64, map[string]float64) {
	d, h := steadyStateDistribution(root, m)
	return d, h.GetMeanCounts()
}

// VerifLivenessAndCost is the analysis until a witness of an assertion.
func VerifLivenessAndCost(root *Node, m *proto.PerformanceModel, file, invariant int) ([]float64, map[string]float64) {
	d, h := checkLivenessAndCost(root, m, file, invariant)
	return d, h.GetMeanCounts()
}
