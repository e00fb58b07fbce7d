package main

import (
	"fmt"
	"math"
	"os"

	"github.com/cubeflix/nn"
)

// fail reports what is wrong and ends the demonstration.
func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %s", err)
	}
}

func mat(rows ...[]float64) nn.Matrix {
	m, err := nn.NewMatrixFromSlice(rows)
	must(err)
	return m
}

func row(values ...float64) []float64 { return values }

func near(what string, got, want float64) {
	if math.IsNaN(got) || math.Abs(got-want) > 1e-9*math.Max(1e-3, math.Abs(want)) {
		fail("%s: got %g, want %g", what, got, want)
	}
}

func nearMat(what string, got nn.Matrix, want ...[]float64) {
	if got.Rows != len(want) || got.Cols != len(want[0]) {
		fail("%s: got %d x %d", what, got.Rows, got.Cols)
	}
	for i := range want {
		for j := range want[i] {
			near(fmt.Sprintf("%s[%d][%d]", what, i, j), got.M[i][j], want[i][j])
		}
	}
}

// grid makes a matrix with values spread over [-1, 1].
func grid(rows, cols int, seed int) nn.Matrix {
	m, err := nn.NewMatrix(rows, cols)
	must(err)
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] = math.Sin(float64(seed*31+i*7+j*3) + 0.5)
		}
	}
	return m
}

func none() nn.Matrix { return nn.Matrix{} }
