package zzverif

import (
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// C13_LeastSquare: the returned line satisfies the normal equations.
func C13_LeastSquare() {
	n := sym.Range("n", 2, sym.Tier(4, 5))
	x, y := floats("x", n), floats("y", n)
	mx, my := mean(x), mean(y)
	var sxx, sxy float64
	for i := 0; i < n; i++ {
		sxx += (x[i] - mx) * (x[i] - mx)
		sxy += (x[i] - mx) * (y[i] - my)
	}
	sym.Assume(sxx > 0.001)
	m, b := utils.LeastSquare(x, y)
	sym.AssertEq(m, sxy/sxx, "the slope is the covariance over the variance")
	sym.AssertEq(b, my-m*mx, "the line passes through the centroid")
	r := utils.LinearRegressionUsingLeastSquare(x, y)
	sym.Assert(len(r) == n, "one fitted value per point")
	for i := 0; i < n; i++ {
		sym.AssertEq(r[i], m*x[i]+b, "the fitted values lie on the line")
	}
	observe("r", r)
}

func mls(n, p int, x []float64) {
	y := floats("y", n)
	m, b := utils.MovingLeastSquare(p, x, y)
	r := utils.MovingLinearRegressionUsingLeastSquare(p, x, y)
	sym.Assert(len(m) == n, "one slope per point")
	sym.Assert(len(b) == n, "one intercept per point")
	sym.Assert(len(r) == n, "one fitted value per point")
	for i := 1; i < n; i++ {
		wx, wy := win(x, i, p), win(y, i, p)
		mx, my := mean(wx), mean(wy)
		var sxx, sxy float64
		for k := 0; k < len(wx); k++ {
			sxx += (wx[k] - mx) * (wx[k] - mx)
			sxy += (wx[k] - mx) * (wy[k] - my)
		}
		if sxx > 0.001 {
			sym.AssertEq(m[i], sxy/sxx, "the slope fits the window")
			sym.AssertEq(b[i], my-m[i]*mx, "the intercept fits the window")
			sym.AssertEq(r[i], m[i]*x[i]+b[i], "the fitted value is on the line")
		}
	}
}

// C13_Moving: each point's line is the fit of its trailing window (arbitrary x).
func C13_Moving() {
	n := sym.Range("n", 0, sym.Tier(4, 5))
	p := sym.Range("period", 2, 3)
	mls(n, p, floats("x", n))
}

// C13_MovingGrid: equally spaced x, longer windows.
func C13_MovingGrid() {
	n := sym.Tier(20, 40)
	p := sym.Range("period", 2, sym.Tier(14, 20))
	x := make([]float64, n)
	for i := 0; i < n; i++ {
		x[i] = float64(i)
	}
	mls(n, p, x)
}
