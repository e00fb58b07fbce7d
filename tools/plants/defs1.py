P = []
def plant(id, property, needs, breaks, edits, demo, **kw):
    P.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

plant("transpose-view", "C01", "a one-row matrix transposed, and one of the two written afterwards",
      "The transpose of a one-row matrix shares its values with the operand, so that writing to the result changes the operand.",
      [("matrix.go", """	for i := 0; i < m.Rows; i++ {
		col, _ := m.GetRow(i)
		ans.SetColumn(i, col)
	}

	// Return the matrix.
	return ans
""", """	for i := 0; i < m.Rows; i++ {
		col := m.M[i]
		if m.Rows == 1 {
			// Every row of the transpose is one value of the single row.
			for j := range col {
				ans.M[j] = col[j : j+1]
			}
			break
		}
		ans.SetColumn(i, col)
	}

	// Return the matrix.
	return ans
""")], """
func main() {
	for _, m := range []nn.Matrix{grid(2, 3, 1), grid(1, 4, 2), grid(4, 1, 3)} {
		before := m.M[0][0]
		t := m.T()
		if t.Rows != m.Cols || t.Cols != m.Rows {
			fail("the transpose is %d x %d", t.Rows, t.Cols)
		}
		must(t.Set(0, 0, 99))
		if m.M[0][0] != before {
			fail("writing to the transpose of a %d x %d matrix changed the matrix", m.Rows, m.Cols)
		}
	}
}
""")

plant("setcolumn-partial", "C02", "a column of the wrong length set into a matrix whose rows it covers only in part",
      "A refused SetColumn has already overwritten the first values of the column.",
      [("matrix.go", """	// Check that the slice is the right length.
	if len(values) != m.Rows {
		return invalidSliceDimensionsError(len(values))
	}

	// The values can be a row of the same matrix, which the column crosses.
	values = append([]float64(nil), values...)

	// Loop over the rows and insert the column.
	for i := 0; i < m.Rows; i++ {
		m.M[i][col] = values[i]
	}

	return nil
""", """	// The values can be a row of the same matrix, which the column crosses.
	values = append([]float64(nil), values...)

	// Loop over the rows and insert the column.
	for i := 0; i < m.Rows; i++ {
		// Check that the slice has a value for the row.
		if i >= len(values) {
			return invalidSliceDimensionsError(len(values))
		}
		m.M[i][col] = values[i]
	}

	// Check that the slice has no more values.
	if len(values) > m.Rows {
		return invalidSliceDimensionsError(len(values))
	}

	return nil
""")], """
func main() {
	for _, n := range []int{0, 1, 2, 4, 7} {
		m := grid(3, 2, 1)
		t := m.T()
		before := t.T()
		values := make([]float64, n)
		if m.SetColumn(1, values) == nil {
			fail("a column of %d values was accepted into 3 rows", n)
		}
		for i := range m.M {
			for j := range m.M[i] {
				if m.M[i][j] != before.M[i][j] {
					fail("the refused column of %d values changed [%d][%d]", n, i, j)
				}
			}
		}
	}
	m := grid(3, 2, 1)
	must(m.SetColumn(1, row(7, 8, 9)))
	nearMat("column", m, row(m.M[0][0], 7), row(m.M[1][0], 8), row(m.M[2][0], 9))
}
""")

plant("leaky-max", "C03", "a leaky layer whose slope is larger than one",
      "The leaky layer computes max(z, slope*z), which is not its activation once the slope exceeds one.",
      [("activation.go", """			if m.M[i][j] < 0 {
				m.M[i][j] = m.M[i][j] * slope
			}
                }
        }

        // Return the final matrix.
        return m
}


// Leaky RELU gradient""", """			m.M[i][j] = math.Max(m.M[i][j], m.M[i][j] * slope)
                }
        }

        // Return the final matrix.
        return m
}


// Leaky RELU gradient""")], """
func main() {
	for _, slope := range []float64{0, 0.01, 0.5, 1, 2.5} {
		l, err := nn.NewLeakyLayer(1, 2, slope)
		must(err)
		must(l.Weights.SetRow(0, row(1, -2)))
		must(l.Biases.SetRow(0, row(0.5, 0)))
		out, err := l.Forward(mat(row(1), row(-3)))
		must(err)
		nearMat("output", out, row(1.5, slope*-2), row(slope*-2.5, 6))
	}
}
""")

plant("sigmoid-saturated", "C04", "a sigmoid unit driven far into saturation whose gradient from above is large",
      "The derivative of a saturated sigmoid unit is flushed to zero although it is not zero.",
      [("activation.go", """                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])
""", """                        g := m.M[i][j] * (1-m.M[i][j])
			if g < 1e-6 {
				g = 0
			}
                        m.M[i][j] = dValues.M[i][j] * g
""")], """
func main() {
	for _, z := range []float64{0, 1, -3, 12, -12, 16, -17} {
		l, err := nn.NewSigmoidLayer(1, 1)
		must(err)
		l.Weights.M[0][0] = z
		x := mat(row(1))
		_, err = l.Forward(x)
		must(err)
		dw, _, _, err := l.Backward(x, mat(row(1e6)))
		must(err)
		e := math.Exp(-math.Abs(z))
		want := 1e6 * e / ((1 + e) * (1 + e))
		if math.Abs(dw.M[0][0]-want) > 1e-6*want {
			fail("derivative at %g: got %g, want %g", z, dw.M[0][0], want)
		}
	}
}
""")

plant("cross-entropy-rows", "C05", "a fused softmax and cross-entropy backward pass with more labels than outputs",
      "Labels for more samples than the layer put out are taken without an error instead of being refused.",
      [("network.go", """        if y.Rows != dValues.Rows {
                return Matrix{}""", """        if y.Rows < dValues.Rows {
                return Matrix{}""")], """
func main() {
	l, err := nn.NewSoftmaxLayer(2, 3)
	must(err)
	l.Init()
	x := grid(2, 2, 1)
	out, err := l.Forward(x)
	must(err)
	for _, n := range []int{1, 3, 5} {
		y, _ := nn.NewMatrix(n, 3)
		for i := range y.M {
			y.M[i][i%3] = 1
		}
		if _, _, _, err := l.BackwardCrossEntropy(x, y, out); err == nil {
			fail("%d labels were accepted for 2 outputs", n)
		}
	}
	if _, _, _, err := l.BackwardCrossEntropy(x, mat(row(1, 0, 0), row(0, 1, 0)), out); err != nil {
		fail("fitting labels were refused: %s", err)
	}
}
""")

plant("percent-rates", "C06", "a dropout rate that is no whole percentage, and enough units to see the frequency",
      "Units are kept with the rate rounded up to a whole percentage instead of the rate asked for.",
      [("binomial.go", """			if runif() < p {
				bnl++
			}
		}
		if p != b.P {
			return b.N - bnl
		}
		return bnl
	}

	if am < 1 {""", """			if math.Floor(runif()*100) < p*100 {
				bnl++
			}
		}
		if p != b.P {
			return b.N - bnl
		}
		return bnl
	}

	if am < 1 {""")], """
func main() {
	for _, rate := range []float64{0, 0.25, 0.5, 0.995, 0.004, 1} {
		l, err := nn.NewDropoutLayer(1, 500, rate)
		must(err)
		for j := range l.Biases.M[0] {
			l.Biases.M[0][j] = 1
		}
		x, _ := nn.NewMatrix(400, 1)
		out, err := l.Forward(x)
		must(err)
		kept := 0.0
		for i := range out.M {
			for j := range out.M[i] {
				if out.M[i][j] != 0 {
					kept++
				}
			}
		}
		n := 200000.0
		if math.Abs(kept-n*(1-rate)) > 8*math.Sqrt(n*rate*(1-rate)) {
			fail("rate %g kept %g of %g units", rate, kept, n)
		}
	}
}
""")

plant("clip-one", "C07", "binary cross-entropy of a prediction of exactly one",
      "Predictions of one are no longer clipped (1 - 1e-17 is one in float64): a perfect prediction costs NaN, a wrong one +Inf.",
      [("matrix.go", """			} else if X.M[i][j] > 1 - 1e-7 {
				X.M[i][j] = float64(1 - 1e-7)
""", """			} else if X.M[i][j] > 1 - 1e-17 {
				X.M[i][j] = float64(1 - 1e-17)
""")], """
func main() {
	l, err := nn.NewBinaryCrossEntropyLoss(2)
	must(err)
	for _, p := range []float64{0, 1e-9, 0.3, 1 - 1e-9, 1} {
		for _, y := range []float64{0, 1} {
			v, err := l.Forward(mat(row(p, 0.5)), mat(row(y, 1)))
			must(err)
			q := math.Min(math.Max(p, 1e-7), 1-1e-7)
			want := (-(y*math.Log(q) + (1-y)*math.Log(1-q)) + math.Ln2) / 2
			if !(math.Abs(v-want) < 1e-6) {
				fail("loss of predicting %g for %g: got %g, want %g", p, y, v, want)
			}
		}
	}
}
""")

plant("bce-guard", "C08", "a binary cross-entropy gradient for a prediction within 1e-5 of zero or one",
      "The rewritten gradient (p - y) / (p (1 - p)) bounds its denominator by 1e-5, so that confident wrong predictions get too small a gradient.",
      [("loss.go", """			dInputs.M[i][j] = (-(y.M[i][j] / clipped.M[i][j] - (1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(yhat.Rows)
""", """			p := clipped.M[i][j]
			dInputs.M[i][j] = ((p - y.M[i][j]) / math.Max(p * (1 - p), 1e-5) / float64(loss.Size)) / float64(yhat.Rows)
""")], """
func main() {
	l, err := nn.NewBinaryCrossEntropyLoss(1)
	must(err)
	for _, p := range []float64{0.5, 0.01, 0.99, 1e-6, 1 - 1e-6} {
		for _, y := range []float64{0, 1} {
			g, err := l.Backward(mat(row(p)), mat(row(y)))
			must(err)
			want := -(y/p - (1-y)/(1-p))
			if math.Abs(g.M[0][0]-want) > 1e-6*math.Abs(want) {
				fail("gradient of predicting %g for %g: got %g, want %g", p, y, g.M[0][0], want)
			}
		}
	}
}
""")

plant("sgd-bias-rate", "C09", "SGD with both decay and momentum, from the second update on, looking at the biases",
      "With momentum the biases are updated with the initial learning rate instead of the decayed one.",
      [("optimizers.go", """		scaledGradientsBiases := dBiases.MulScalar(optimizer.currentRate)
""", """		scaledGradientsBiases := dBiases.MulScalar(optimizer.LearningRate)
""")], """
func main() {
	for _, decay := range []float64{0, 0.5} {
		for _, momentum := range []float64{0, 0.9} {
			o, err := nn.NewSGDOptimizer(0.1, decay, momentum)
			must(err)
			w, b := mat(row(1)), mat(row(1))
			value, speed := 1.0, 0.0
			for t := 0; t < 6; t++ {
				g := float64(t+1) / 3
				must(o.Update(&w, &b, mat(row(g)), mat(row(g))))
				speed = momentum*speed - 0.1/(1+decay*float64(t))*g
				value += speed
				near("weight", w.M[0][0], value)
				near("bias", b.M[0][0], value)
			}
		}
	}
}
""")

plant("adam-epsilon", "C10", "Adam updates with gradients not much larger than epsilon",
      "Epsilon is added under the square root of the second moment instead of to the root.",
      [("optimizers.go", """			weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / (math.Sqrt(correctedWeightCaches.M[i][j]) + optimizer.Epsilon)
""", """			weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / math.Sqrt(correctedWeightCaches.M[i][j] + optimizer.Epsilon * optimizer.Epsilon)
""")], """
func main() {
	for _, size := range []float64{1, 1e-3, 1e-7, 1e-9} {
		o, err := nn.NewAdamOptimizer(0.1, 0, 1e-7, 0.9, 0.99)
		must(err)
		w, b := mat(row(0)), mat(row(0))
		value, m, v := 0.0, 0.0, 0.0
		for t := 1; t < 5; t++ {
			g := size * float64(t)
			must(o.Update(&w, &b, mat(row(g)), mat(row(g))))
			m = 0.9*m + (1-0.9)*g
			v = 0.99*v + (1-0.99)*g*g
			value -= 0.1 * m / (1 - math.Pow(0.9, float64(t))) / (math.Sqrt(v/(1-math.Pow(0.99, float64(t)))) + 1e-7)
			near("weight", w.M[0][0], value)
			near("bias", b.M[0][0], value)
		}
	}
}
""")

plant("shared-momentums", "C11", "two SGD optimizers with momentum whose parameters have the same shape",
      "The initial momentums of equal shape are shared and, since the update is made in place, optimizers of different layers push each other's parameters.",
      [("optimizers.go", """			optimizer.weightMomentums, _ = NewMatrix(weights.Rows, weights.Cols)
			optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
		}

		// Calculate weight updates with momentum.""", """			optimizer.weightMomentums = zeroMomentums(weights.Rows, weights.Cols)
			optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
		}

		// Calculate weight updates with momentum."""),
       ("optimizers.go", """		err := errors.New("")
		optimizer.weightMomentums, err = scaledMomentumsWeights.Sub(scaledGradientsWeights)
		if err != nil {
			return err
		}
""", """		newMomentums, err := scaledMomentumsWeights.Sub(scaledGradientsWeights)
		if err != nil {
			return err
		}
		for i := 0; i < newMomentums.Rows; i++ {
			copy(optimizer.weightMomentums.M[i], newMomentums.M[i])
		}
"""),
       ("optimizers.go", """// Stochastic gradient descent optimizer object. Can handle a single layer.
""", """// Momentums before the first update, by their dimensions.
var startMomentums = map[[2]int]Matrix{}

func zeroMomentums(rows, cols int) Matrix {
	zero, ok := startMomentums[[2]int{rows, cols}]
	if !ok {
		zero, _ = NewMatrix(rows, cols)
		startMomentums[[2]int{rows, cols}] = zero
	}
	return zero
}

// Stochastic gradient descent optimizer object. Can handle a single layer.
""")], """
func main() {
	var values [2][]float64
	for k := range values {
		o, err := nn.NewSGDOptimizer(0.1, 0, 0.9)
		must(err)
		w, b := mat(row(1, 2), row(3, 4)), mat(row(0, 0))
		for t := 0; t < 3; t++ {
			must(o.Update(&w, &b, mat(row(1, 2), row(3, 4)), mat(row(1, 1))))
		}
		values[k] = append(append(values[k], w.M[0]...), w.M[1]...)
	}
	for i := range values[0] {
		near("second optimizer's weights", values[1][i], values[0][i])
	}
}
""")

plant("finalize-order", "C12", "a model finalized once, then finalized with a loss that does not fit",
      "A refused Finalize has already replaced the loss type, so that the model no longer is what it was.",
      [("model.go", """	values := loss.getValues()
	if m.OutputSize != int(values["size"]) {
		return errors.New("nn.Model: Loss size does not match up with output size.")
	}
	m.LossType = LossType(values["type"])
	m.Loss = loss
""", """	values := loss.getValues()
	m.LossType = LossType(values["type"])
	if m.OutputSize != int(values["size"]) {
		return errors.New("nn.Model: Loss size does not match up with output size.")
	}
	m.Loss = loss
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewSoftmaxLayer(2, 3)
	must(err)
	must(m.AddLayer(&l))
	good, err := nn.NewCrossEntropyLoss(3)
	must(err)
	bad, err := nn.NewMeanSquaredLoss(2)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	must(m.Finalize(&good, &o, nn.CategoricalAccuracyType, 0))
	if m.Finalize(&bad, &o, nn.RegressionAccuracyType, 0.1) == nil {
		fail("a loss of the wrong size was accepted")
	}
	if m.LossType != nn.CrossEntropyLossType || m.Loss != nn.Loss(&good) || m.AccuracyType != nn.CategoricalAccuracyType {
		fail("the refused loss changed the model: loss type %d, accuracy type %d", m.LossType, m.AccuracyType)
	}
}
""")

plant("last-dropout", "C13", "a model that ends in a dropout layer, evaluated",
      "A dropout layer in last place still drops units when the model predicts.",
      [("model.go", """		if _, ok := m.Layers[i].(*DropoutLayer); ok && training == false {
""", """		if _, ok := m.Layers[i].(*DropoutLayer); ok && training == false && i + 1 < m.ModelSize {
""")], """
func main() {
	for _, where := range []int{0, 1, 2} {
		m := nn.NewModel()
		for i := 0; i < 3; i++ {
			if i == where {
				l, err := nn.NewDropoutLayer(4, 4, 0.5)
				must(err)
				l.Init()
				must(m.AddLayer(&l))
			} else {
				l, err := nn.NewLinearLayer(4, 4)
				must(err)
				l.Init()
				must(m.AddLayer(&l))
			}
		}
		loss, err := nn.NewMeanSquaredLoss(4)
		must(err)
		o, err := nn.NewSGDOptimizer(0.1, 0, 0)
		must(err)
		must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
		x := grid(20, 4, 3)
		first, err := m.Predict(x)
		must(err)
		for k := 0; k < 5; k++ {
			again, err := m.Predict(x)
			must(err)
			if !again.Equals(first) {
				fail("predictions of the same data differ with the dropout layer in place %d", where)
			}
		}
	}
}
""")

plant("softmax-pair", "C14", "a model with cross-entropy loss whose last two layers are softmax layers",
      "The backward pass skips a softmax layer in the last but one place: its gradients are missing and the chain is broken.",
      [("model.go", """m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {
			continue""", """m.LossType == CrossEntropyLossType && i >= m.ModelSize - 2 {
			continue""")], """
func main() {
	m := nn.NewModel()
	a, err := nn.NewLinearLayer(2, 3)
	must(err)
	b, err := nn.NewSoftmaxLayer(3, 3)
	must(err)
	c, err := nn.NewSoftmaxLayer(3, 2)
	must(err)
	for i, w := range []*nn.Matrix{a.Weights, b.Weights, c.Weights} {
		g := grid(w.Rows, w.Cols, i)
		for k := range w.M {
			must(w.SetRow(k, g.M[k]))
		}
	}
	must(m.AddLayer(&a))
	must(m.AddLayer(&b))
	must(m.AddLayer(&c))
	loss, err := nn.NewCrossEntropyLoss(2)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.CategoricalAccuracyType, 0))
	x, y := grid(2, 2, 9), mat(row(1, 0), row(0, 1))
	outs, err := m.Forward(x, true)
	must(err)
	gs, err := m.Backward(outs, y)
	must(err)
	if len(gs) != 3 {
		fail("%d gradients for 3 layers", len(gs))
	}
	for k, w := range []*nn.Matrix{c.Weights, b.Weights, a.Weights} {
		for i := range w.M {
			for j := range w.M[i] {
				const h = 1e-6
				old := w.M[i][j]
				w.M[i][j] = old + h
				up, err := m.CalculateLoss(x, y)
				must(err)
				w.M[i][j] = old - h
				down, err := m.CalculateLoss(x, y)
				must(err)
				w.M[i][j] = old
				if math.Abs(gs[k].DWeights.M[i][j]-(up-down)/(2*h)) > 1e-6 {
					fail("gradient %d [%d][%d]: got %g, want %g", k, i, j, gs[k].DWeights.M[i][j], (up-down)/(2*h))
				}
			}
		}
	}
}
""")

TRAIN = """
func model(size int) nn.Model {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(size, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	return m
}
"""

plant("round-batches", "C15", "a data set whose last batch is smaller than half a batch",
      "The number of batches is rounded, so that a last batch of less than half the size is never trained on.",
      [("model.go", """		batchSteps = Y.Rows / batchSize
		if batchSteps * batchSize < Y.Rows {
			batchSteps += 1
		}
""", """		batchSteps = int(math.Max(math.Round(float64(Y.Rows) / float64(batchSize)), 1))
""")], TRAIN + """
func main() {
	for rows := 1; rows < 12; rows++ {
		for batch := 1; batch < 14; batch++ {
			// Every sample has a feature of its own: its weight moves exactly if the sample is trained on.
			x, _ := nn.NewMatrix(rows, rows)
			y, _ := nn.NewMatrix(rows, 1)
			for i := range x.M {
				x.M[i][i] = 1
				y.M[i][0] = 3.7 + float64(i)
			}
			m := model(rows)
			must(m.Fit(x, y, 1, batch, none(), none(), 0))
			w := m.Layers[0].(*nn.LinearLayer).Weights
			for i := range w.M {
				if w.M[i][0] == 0 {
					fail("sample %d of %d was never visited with batch size %d", i, rows, batch)
				}
			}
		}
	}
}
""")

plant("evaluation-switch", "C16", "a model with dropout asked to evaluate data that does not fit, and then trained",
      "Evaluation turns dropout off in the layer itself and turns it on again only if the pass succeeds: after a failed evaluation the model trains without dropout.",
      [("model.go", """			out, err := m.Layers[i].(*DropoutLayer).ForwardNoDropout(output)
	                output = out
	                if err != nil {
	                        return []Matrix{}, err
			}
			outputs = append(outputs, output)
			continue
""", """			layer := m.Layers[i].(*DropoutLayer)
			rate := layer.Dropout
			layer.Dropout = 0
			out, err := layer.Forward(output)
	                output = out
	                if err != nil {
	                        return []Matrix{}, err
			}
			layer.Dropout = rate
			outputs = append(outputs, output)
			continue
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewDropoutLayer(2, 50, 0.5)
	must(err)
	l.Init()
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(50)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	if _, err := m.Predict(grid(3, 2, 1)); err != nil {
		fail("fitting data refused: %s", err)
	}
	if _, err := m.Predict(grid(3, 5, 1)); err == nil {
		fail("data of the wrong width accepted")
	}
	if l.Dropout != 0.5 {
		fail("looking at the model changed its dropout rate to %g", l.Dropout)
	}
	outs, err := m.Forward(grid(20, 2, 1), true)
	must(err)
	still, err := m.Forward(grid(20, 2, 1), false)
	must(err)
	if outs[1].Equals(still[1]) {
		fail("training drops nothing after the model was looked at")
	}
}
""")

plant("wide-labels", "C17", "labels wider than the output of a softmax model trained with cross-entropy loss",
      "The fused backward pass takes labels with too many columns, so that Fit trains on them instead of refusing.",
      [("network.go", """	if y.Cols != l.OutputSize {
                return Matrix{}""", """	if y.Cols < l.OutputSize {
                return Matrix{}""")], """
func main() {
	for _, cols := range []int{1, 2, 4, 6} {
		m := nn.NewModel()
		l, err := nn.NewSoftmaxLayer(2, 3)
		must(err)
		l.Init()
		before := l.Weights.T()
		must(m.AddLayer(&l))
		loss, err := nn.NewCrossEntropyLoss(3)
		must(err)
		o, err := nn.NewSGDOptimizer(0.25, 0, 0)
		must(err)
		must(m.Finalize(&loss, &o, nn.CategoricalAccuracyType, 0))
		y, _ := nn.NewMatrix(4, cols)
		for i := range y.M {
			y.M[i][i%cols] = 1
		}
		if m.Fit(grid(4, 2, 1), y, 2, 3, none(), none(), 0) == nil {
			fail("labels with %d columns were accepted for 3 outputs", cols)
		}
		if !before.Equals(l.Weights.T()) {
			fail("labels with %d columns changed the model", cols)
		}
	}
}
""")

plant("lone-validation", "C18", "a validation set of a single sample",
      "Training reports nothing about a validation set that has only one sample.",
      [("model.go", """	useValidation := (yVal.Rows != 0)
""", """	useValidation := (yVal.Rows > 1)
""")], TRAIN + """
func main() {
	for rows := 0; rows < 4; rows++ {
		var buf bytes.Buffer
		nn.InfoLogger = log.New(&buf, "", 0)
		m := model(2)
		xv, yv := none(), none()
		if rows > 0 {
			xv, yv = grid(rows, 2, 4), grid(rows, 1, 5)
		}
		must(m.Fit(grid(3, 2, 1), grid(3, 1, 2), 4, 2, xv, yv, 2))
		want := 2
		if rows > 0 {
			want = 4
		}
		if n := strings.Count(buf.String(), "\\n"); n != want {
			fail("%d reports with %d validation samples, want %d:\\n%s", n, rows, want, buf.String())
		}
	}
}
""")

plant("short-percision", "C19", "a regression model whose percision is no float32, loaded, and an error right at the percision",
      "The accuracy percision passes through float32 when it is saved, so that a loaded model counts other samples as correct.",
      [("model_data.go", """        err = binary.Write(buf, binary.LittleEndian, m.AccuracyPercision)
""", """        err = binary.Write(buf, binary.LittleEndian, float64(float32(m.AccuracyPercision)))
""")], TRAIN + """
func main() {
	for _, percision := range []float64{0, 0.5, 0.1, 1e-3, 1e300} {
		m := model(1)
		m.AccuracyPercision = percision
		data := nn.NewSavedModelData(m)
		var buf bytes.Buffer
		must(data.Serialize(&buf))
		back, err := nn.LoadModel(&buf)
		must(err)
		if back.AccuracyPercision != percision {
			fail("percision %v was loaded as %v", percision, back.AccuracyPercision)
		}
		x, y := mat(row(1)), mat(row(percision))
		a, err := m.CalculateAccuracy(x, y)
		must(err)
		b, err := back.CalculateAccuracy(x, y)
		must(err)
		near("accuracy of the loaded model", b, a)
	}
}
""")

plant("slope-dropout-order", "C20", "data exchanged with the documented format (saving and loading with the same library still agree)",
      "The writer and the reader both have the slope and the dropout rate of a layer in the wrong order: data no longer has the documented format.",
      [("layer_data.go", """	err = binary.Write(buf, binary.LittleEndian, l.Slope)
""", """	err = binary.Write(buf, binary.LittleEndian, l.Dropout)
"""), ("layer_data.go", """        err = binary.Write(buf, binary.LittleEndian, l.Dropout)
        if err""", """        err = binary.Write(buf, binary.LittleEndian, l.Slope)
        if err"""), ("layer_data.go", "        err = binary.Read(buf, binary.LittleEndian, &slope)\n", "        err = binary.Read(buf, binary.LittleEndian, &dropoutValue)\n"),
       ("layer_data.go", "        var dropout float64\n        err = binary.Read(buf, binary.LittleEndian, &dropout)\n", "        var slope float64\n        err = binary.Read(buf, binary.LittleEndian, &slope)\n"),
       ("layer_data.go", "	var slope float64\n", "	var dropoutValue float64\n"),
       ("layer_data.go", "		Dropout: dropout,\n		Weights: weights,", "		Dropout: dropoutValue,\n		Weights: weights,")], """
func main() {
	// LayerData.md: "LA", type, inputs, outputs, slope, dropout, weights, biases.
	l, err := nn.NewLeakyLayer(1, 1, 0.25)
	must(err)
	data := nn.NewSavedLayerData(&l)
	var buf bytes.Buffer
	must(data.SerializeLayer(&buf))
	b := buf.Bytes()
	if string(b[:2]) != "LA" || b[2] != 3 {
		fail("header %v", b[:3])
	}
	near("slope", math.Float64frombits(binary.LittleEndian.Uint64(b[11:])), 0.25)
	near("dropout", math.Float64frombits(binary.LittleEndian.Uint64(b[19:])), 0)
	back, err := nn.LoadLayer(&buf)
	must(err)
	near("loaded slope", back.(*nn.LeakyLayer).Slope, 0.25)
}
""")

plant("fallback-loss", "C21", "a loss type byte that names no loss",
      "An unknown loss type is read as the mean squared loss instead of being refused.",
      [("model_data.go", """			return nil, errors.New("nn.LoadModel: Invalid loss type.")
""", """			WarningLogger.Printf("Loss type %d is not known, using mean squared loss.", lossType)
			return &MeanSquaredLoss{
				Size: size,
			}, nil
""")], TRAIN + """
func main() {
	m := model(2)
	data := nn.NewSavedModelData(m)
	for t := -128; t < 128; t++ {
		data.LossType = nn.LossType(t)
		var buf bytes.Buffer
		must(data.Serialize(&buf))
		back, err := nn.LoadModel(&buf)
		if (err == nil) != (t >= 0 && t < 4) {
			fail("loss type %d: error %v, loaded with loss type %d", t, err, back.LossType)
		}
	}
}
""")

plant("buffered-save", "C22", "a disk that is full when the model is written",
      "The file is written through a buffer whose Flush error is dropped: a model that did not fit on the disk counts as saved.",
      [("model_data.go", """        _, err = file.Write(buffer.Bytes())
        if err != nil {
                return err
        }
""", """        writer := bufio.NewWriter(file)
        defer writer.Flush()
        _, err = writer.Write(buffer.Bytes())
        if err != nil {
                return err
        }
"""), ("model_data.go", """import (
        "bytes"
""", """import (
	"bufio"
        "bytes"
""")], TRAIN + """
func main() {
	m := model(2)
	dir, err := os.MkdirTemp("", "save")
	must(err)
	defer os.RemoveAll(dir)
	must(nn.SaveFile(&m, filepath.Join(dir, "model")))
	_, err = nn.LoadFile(filepath.Join(dir, "model"))
	must(err)
	if nn.SaveFile(&m, "/dev/full") == nil {
		fail("saving to a full device reported no error")
	}
}
""")

plant("last-maximum", "C23", "an output row whose largest value occurs twice",
      "The last instead of the first of equal largest values counts as the predicted class.",
      [("misc.go", """			if X.M[i][j] > largestValue {
""", """			if X.M[i][j] >= largestValue {
""")], """
func main() {
	out := nn.RowMax(mat(row(1, 3, 3), row(2, 2, 1), row(0, 0, 0), row(1, 2, 3)))
	nearMat("classes", out, row(1), row(0), row(0), row(2))
	near("accuracy", nn.CategoricalAccuracy(mat(row(0.4, 0.4, 0.2)), mat(row(1, 0, 0))), 1)
}
""")

plant("onehot-lanes", "C24", "1000 samples or more, and their number no multiple of four",
      "Large inputs are converted by four goroutines that get equally many samples each: what the division leaves over gets no class.",
      [("misc.go", """	for i := 0; i < X.Rows; i++ {
		class := int(X.M[i][0])
		if class < 0 || class >= size {
			return Matrix{}, errors.New("nn.SparseToOneHot: Class index out of range.")
		}
		ans.M[i][class] = 1
	}
""", """	lanes := 1
	if X.Rows >= 1000 {
		lanes = 4
	}
	share := X.Rows / lanes
	invalid := make([]bool, lanes)
	var wait sync.WaitGroup
	for lane := 0; lane < lanes; lane++ {
		wait.Add(1)
		go func(lane int) {
			defer wait.Done()
			for i := lane * share; i < (lane + 1) * share; i++ {
				class := int(X.M[i][0])
				if class < 0 || class >= size {
					invalid[lane] = true
					return
				}
				ans.M[i][class] = 1
			}
		}(lane)
	}
	wait.Wait()
	for lane := 0; lane < lanes; lane++ {
		if invalid[lane] {
			return Matrix{}, errors.New("nn.SparseToOneHot: Class index out of range.")
		}
	}
"""), ("misc.go", """	"math/rand"
""", """	"math/rand"
	"sync"
""")], """
func main() {
	for _, n := range []int{1, 7, 150, 999, 1000, 1003, 4097} {
		x, err := nn.NewMatrix(n, 1)
		must(err)
		for i := range x.M {
			x.M[i][0] = float64(i % 3)
		}
		out, err := nn.SparseToOneHot(x, 3)
		must(err)
		for i := range out.M {
			for j, v := range out.M[i] {
				if (v == 1) != (j == i%3) || v != 0 && v != 1 {
					fail("sample %d of %d has %g in column %d", i, n, v, j)
				}
			}
		}
	}
}
""")

plant("shuffle-seed", "C25", "two data sets shuffled within the same second",
      "Shuffling is seeded by the second, so that every shuffle within a second makes the same order.",
      [("misc.go", """	rand.Seed(time.Now().UnixNano())
""", """	rand.Seed(time.Now().Unix())
""")], """
func main() {
	seen := map[string]bool{}
	for k := 0; k < 20; k++ {
		x, _ := nn.NewMatrix(30, 1)
		y, _ := nn.NewMatrix(30, 1)
		for i := range x.M {
			x.M[i][0], y.M[i][0] = float64(i), float64(i)
		}
		x, y = nn.ShuffleDataset(x, y)
		for i := range x.M {
			if x.M[i][0] != y.M[i][0] {
				fail("sample and label were separated")
			}
		}
		seen[fmt.Sprint(x.M)] = true
	}
	if len(seen) < 15 {
		fail("20 shuffles of 30 samples made %d orders", len(seen))
	}
}
""")

plant("linear-seed", "C26", "two linear layers of the same size initialized within the same second",
      "The weights of a linear layer are seeded by the second, so that layers initialized together get the same weights.",
      [("network.go", """func (l *LinearLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().UnixNano()))
""", """func (l *LinearLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().Unix()))
""")], """
func main() {
	seen := map[string]bool{}
	for k := 0; k < 10; k++ {
		l, err := nn.NewLinearLayer(3, 4)
		must(err)
		l.Init()
		seen[fmt.Sprint(l.Weights.M)] = true
	}
	if len(seen) < 6 {
		fail("10 initialized layers have %d different weights", len(seen))
	}
}
""")

plant("shared-column", "C27", "two models used from two goroutines at the same time",
      "The dot product gathers the columns of its second operand in a buffer that all goroutines share.",
      [("matrix.go", """	// Loop over the matricies and calculate the dot product.
	for i := 0; i < m.Rows; i++ {
                for j := 0; j < b.Cols; j++ {
			// Matrix m columns multiplied by matrix b rows.
			sum := float64(0)
			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}

			// Set the new value in the matrix.
			ans.M[i][j] = sum
                }
        }
""", """	// Loop over the matricies and calculate the dot product.
	if len(dotColumn) < b.Rows {
		dotColumn = make([]float64, b.Rows)
	}
	for j := 0; j < b.Cols; j++ {
		// Gather the column, so that it is read in sequence.
		for n := 0; n < b.Rows; n++ {
			dotColumn[n] = b.M[n][j]
		}
		for i := 0; i < m.Rows; i++ {
			// Matrix m columns multiplied by matrix b rows.
			sum := float64(0)
			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * dotColumn[n]
			}

			// Set the new value in the matrix.
			ans.M[i][j] = sum
                }
        }
"""), ("matrix.go", """// Matrix dot product.
""", """// The column that a dot product works on.
var dotColumn []float64

// Matrix dot product.
""")], """
func main() {
	var wait sync.WaitGroup
	bad := make([]bool, 4)
	for g := range bad {
		wait.Add(1)
		go func(g int) {
			defer wait.Done()
			a, b := grid(40, 40, g), grid(40, 40, g+10)
			for k := 0; k < 50; k++ {
				c, err := a.Dot(b)
				if err != nil {
					bad[g] = true
					return
				}
				for i := range c.M {
					for j := range c.M[i] {
						sum := 0.0
						for n := 0; n < 40; n++ {
							sum += a.M[i][n] * b.M[n][j]
						}
						bad[g] = bad[g] || sum-c.M[i][j] > 1e-9 || c.M[i][j]-sum > 1e-9
					}
				}
			}
		}(g)
	}
	wait.Wait()
	for g := range bad {
		if bad[g] {
			fail("goroutine %d got a wrong product", g)
		}
	}
}
""")

plant("log-overwrite", "C28", "logging set up a second time with the same file",
      "The log file is opened without appending: setting up logging again writes over the earlier messages.",
      [("nn.go", "os.O_APPEND|os.O_CREATE|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY")], """
func main() {
	dir, err := os.MkdirTemp("", "log")
	must(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "log")
	for k := 0; k < 3; k++ {
		must(nn.InitLogger(false, true, name))
		nn.InfoLogger.Printf("message %d", k)
		nn.ErrorLogger.Printf("trouble %d", k)
	}
	text, err := os.ReadFile(name)
	must(err)
	for k := 0; k < 3; k++ {
		for _, what := range []string{"message", "trouble"} {
			if !strings.Contains(string(text), fmt.Sprintf("%s %d", what, k)) {
				fail("%s %d is missing from the log:\\n%s", what, k, text)
			}
		}
	}
}
""")
