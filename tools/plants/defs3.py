P = []
def plant(id, property, needs, breaks, edits, demo, **kw):
    P.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

plant("column-buffer", "C02", "a column that was read before another column is read, and looked at afterwards",
      "GetColumn returns a buffer that all columns are read into.",
      [("matrix.go", """	s := make([]float64, m.Rows)
	for i, _ := range s {
		s[i] = m.M[i][col]
	}
""", """	if cap(columnBuffer) < m.Rows {
		columnBuffer = make([]float64, m.Rows)
	}
	s := columnBuffer[:m.Rows]
	for i, _ := range s {
		s[i] = m.M[i][col]
	}
"""), ("matrix.go", """func (m *Matrix) GetColumn(""", """var columnBuffer []float64

func (m *Matrix) GetColumn(""")], """
func main() {
	m, other := mat(row(1, 2), row(3, 4)), mat(row(5, 6), row(7, 8), row(9, 10))
	first, err := m.GetColumn(0)
	must(err)
	second, err := m.GetColumn(1)
	must(err)
	third, err := other.GetColumn(1)
	must(err)
	nearMat("columns", mat(first, second), row(1, 3), row(2, 4))
	nearMat("column", mat(third), row(6, 8, 10))
}
""")

plant("parallel-dot", "C01", "a product whose left matrix has 64 rows or more, not a multiple of four",
      "Large products are made by four goroutines, which leave the rows beyond the last multiple of four at 0.",
      [("matrix.go", """	// Loop over the matricies and calculate the dot product.
	for i := 0; i < m.Rows; i++ {
                for j := 0; j < b.Cols; j++ {
			// Matrix m columns multiplied by matrix b rows.
			sum := float64(0)
			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}

			// Set the new value in the matrix.
			ans.M[i][j] = sum
                }
        }

	// Return the answer.
	return ans, nil
""", """	// Large products are calculated by several workers.
	workers := 1
	if m.Rows >= 64 {
		workers = 4
	}
	size := m.Rows / workers

	// Loop over the matricies and calculate the dot product.
	var wait sync.WaitGroup
	for worker := 0; worker < workers; worker++ {
		wait.Add(1)
		go func(start, end int) {
			defer wait.Done()
			for i := start; i < end; i++ {
				for j := 0; j < b.Cols; j++ {
					// Matrix m columns multiplied by matrix b rows.
					sum := float64(0)
					for n := 0; n < m.Cols; n++ {
						sum += m.M[i][n] * b.M[n][j]
					}

					// Set the new value in the matrix.
					ans.M[i][j] = sum
				}
			}
		}(worker * size, (worker + 1) * size)
	}
	wait.Wait()

	// Return the answer.
	return ans, nil
"""), ("matrix.go", """	"math"
""", """	"math"
	"sync"
""")], """
func main() {
	for _, rows := range []int{1, 3, 64, 66, 127} {
		a, b := grid(rows, 3, 1), grid(3, 2, 2)
		p, err := a.Dot(b)
		must(err)
		for i := range p.M {
			for j := range p.M[i] {
				want := 0.0
				for k := 0; k < 3; k++ {
					want += a.M[i][k] * b.M[k][j]
				}
				near(fmt.Sprintf("%d rows: [%d][%d]", rows, i, j), p.M[i][j], want)
			}
		}
	}
}
""")

plant("cancelled-rows", "C04", "an upstream gradient with a row whose entries cancel each other out",
      "The backward pass of a linear layer leaves the gradients of samples out whose upstream gradients add up to 0.",
      [("network.go", """        // Complete the backpropagation process and calculate the gradients.
        it := x.T()
        wt := l.Weights.T()
        dWeights, err := it.Dot(dValues)
        if err != nil {
                return Matrix{}, Matrix{}, Matrix{}, err
        }

        dBiases := dValues.Sum(0)

        dInputs, err := dValues.Dot(wt)

        return dWeights, dBiases, dInputs, nil
}


// Main sigmoid neural network layer struct.""", """        // Complete the backpropagation process and calculate the gradients.
        it := x.T()
        wt := l.Weights.T()
        dWeights, err := it.Dot(dValues)
        if err != nil {
                return Matrix{}, Matrix{}, Matrix{}, err
        }

        dBiases := dValues.Sum(0)

	// Samples without an upstream gradient do not have any on their inputs.
	totals := dValues.Sum(1)
	dInputs, _ := NewMatrix(dValues.Rows, l.InputSize)
	for i := 0; i < dValues.Rows; i++ {
		if totals.M[0][i] == 0 {
			continue
		}
		for j := 0; j < l.InputSize; j++ {
			for n := 0; n < l.OutputSize; n++ {
				dInputs.M[i][j] += dValues.M[i][n] * wt.M[n][j]
			}
		}
	}

        return dWeights, dBiases, dInputs, nil
}


// Main sigmoid neural network layer struct.""")], """
func main() {
	l, err := nn.NewLinearLayer(2, 2)
	must(err)
	w := mat(row(1, 2), row(3, 5))
	l.Weights = &w
	x := mat(row(1, 1), row(2, -1))
	_, err = l.Forward(x)
	must(err)
	dw, db, dx, err := l.Backward(x, mat(row(1, -1), row(0.5, 1)))
	must(err)
	nearMat("weights", dw, row(2, 1), row(0.5, -2))
	nearMat("biases", db, row(1.5, 0))
	nearMat("inputs", dx, row(-1, -2), row(2.5, 6.5))
}
""")

plant("loaded-past", "C05", "a hidden layer that was loaded, and a backward pass over one sample before any forward pass",
      "A loaded hidden layer starts with a cache of one row, as if it had made a forward pass.",
      [("layer_data.go", """			return &HiddenLayer{
				InputSize:  savedLayerData.Inputs,
				OutputSize: savedLayerData.Outputs,
				Weights:    &savedLayerData.Weights,
				Biases:     &savedLayerData.Biases,
			}, nil
""", """			layer := &HiddenLayer{
				InputSize:  savedLayerData.Inputs,
				OutputSize: savedLayerData.Outputs,
				Weights:    &savedLayerData.Weights,
				Biases:     &savedLayerData.Biases,
			}

			// Reserve the memory of the activation inputs.
			layer.reluInputs, err = NewMatrix(1, savedLayerData.Outputs)
			return layer, err
""")], """
func main() {
	l, err := nn.NewLayer(2, 2)
	must(err)
	var buf bytes.Buffer
	s := nn.NewSavedLayerData(&l)
	must(s.SerializeLayer(&buf))
	got, err := nn.LoadLayer(&buf)
	must(err)
	if _, _, _, err := got.Backward(grid(1, 2, 1), grid(1, 2, 2)); err == nil {
		fail("a backward pass before any forward pass was accepted")
	}
	_, err = got.Forward(grid(1, 2, 1))
	must(err)
	_, _, _, err = got.Backward(grid(1, 2, 1), grid(1, 2, 2))
	must(err)
}
""")

plant("infinite-precision", "C12", "a model that is finalized with an infinite accuracy precision",
      "Finalizing refuses an infinite precision, with which every prediction counts as correct.",
      [("model.go", """	if accuracyPercision < 0 {
		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
	}

	// Set the loss.
	values := loss.getValues()
""", """	if !(accuracyPercision >= 0 && accuracyPercision <= math.MaxFloat64) {
		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
	}

	// Set the loss.
	values := loss.getValues()
	outputs := int(values["size"])
"""), ("model.go", """	if m.OutputSize != int(values["size"]) {
""", """	if m.OutputSize != outputs {
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(2, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	if m.Finalize(&loss, &o, nn.RegressionAccuracyType, -1) == nil || m.Finalize(&loss, &o, nn.RegressionAccuracyType, math.Inf(-1)) == nil {
		fail("a negative precision was accepted")
	}
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, math.MaxFloat64))
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, math.Inf(1)))
	a, err := m.CalculateAccuracy(grid(3, 2, 1), grid(3, 1, 2))
	must(err)
	near("accuracy", a, 1)
}
""")

plant("inner-softmax", "C14", "a model for cross-entropy with a softmax layer before the softmax layer at its end",
      "Softmax layers inside a model are skipped by the backward pass, as the one at its end rightly is.",
      [("model.go", """		if _, ok := m.Layers[i].(*SoftmaxLayer); ok && m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {
			continue
		}
		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
""", """		l, softmax := m.Layers[i].(*SoftmaxLayer)
		if softmax && m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {
			continue
		}

		// The gradients that reach a softmax layer of this loss are on its activation inputs.
		backward := m.Layers[i].Backward
		if softmax && m.LossType == CrossEntropyLossType {
			backward = (&LinearLayer{InputSize: l.InputSize, OutputSize: l.OutputSize, Weights: l.Weights, Biases: l.Biases}).Backward
		}
		dWeights, dBiases, dInputs, err := backward(outputs[i], dValues)
""")], """
func main() {
	m := nn.NewModel()
	a, err := nn.NewSoftmaxLayer(2, 3)
	must(err)
	b, err := nn.NewSoftmaxLayer(3, 2)
	must(err)
	w, v := grid(2, 3, 3), grid(3, 2, 4)
	a.Weights, b.Weights = &w, &v
	must(m.AddLayer(&a))
	must(m.AddLayer(&b))
	loss, err := nn.NewCrossEntropyLoss(2)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.CategoricalAccuracyType, 0))
	X, Y := grid(3, 2, 5), mat(row(1, 0), row(0, 1), row(0, 1))
	outs, err := m.Forward(X, true)
	must(err)
	gs, err := m.Backward(outs, Y)
	must(err)
	value := func() float64 {
		j, err := m.CalculateLoss(X, Y)
		must(err)
		return j
	}
	for i := range w.M {
		for j := range w.M[i] {
			old, h := w.M[i][j], 1e-5
			w.M[i][j] = old + h
			up := value()
			w.M[i][j] = old - h
			down := value()
			w.M[i][j] = old
			if g := gs[1].DWeights.M[i][j]; math.Abs(g-(up-down)/(2*h)) > 1e-6 {
				fail("gradient of a weight of the first layer: got %g, want %g", g, (up-down)/(2*h))
			}
		}
	}
}
""")

plant("smallest-batch", "C17", "the smallest integer as batch size",
      "The size of a batch is checked by its absolute value, which the smallest integer does not have.",
      [("model.go", """	if batchSize < 0 {
		return""", """	if batchSize != 0 && -batchSize > 0 {
		return"""), ("model.go", """	useBatching := (batchSize != 0)
""", """	useBatching := (batchSize > 0)
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(2, 1)
	must(err)
	w := grid(2, 1, 1)
	l.Weights = &w
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	before := w.M[0][0]
	for _, size := range []int{-1, -3, math.MinInt32, math.MinInt64 + 1, math.MinInt64} {
		if m.Fit(grid(3, 2, 2), grid(3, 1, 3), 1, size, none(), none(), 0) == nil {
			fail("a batch size of %d was accepted", size)
		}
	}
	near("weight", w.M[0][0], before)
	must(m.Fit(grid(3, 2, 2), grid(3, 1, 3), 1, 2, none(), none(), 0))
}
""")

plant("shared-labels", "C24", "two samples of one class, and a cell of one of their rows changed afterwards",
      "Samples of one class share the row that encodes it.",
      [("misc.go", """		ans.M[i][class] = 1
	}
""", """		if encoded[class] == nil {
			encoded[class] = make([]float64, size)
			encoded[class][class] = 1
		}
		ans.M[i] = encoded[class]
	}
"""), ("misc.go", """	ans, _ := NewMatrix(X.Rows, size)

	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
""", """	ans := Matrix{Rows: X.Rows, Cols: size, M: make([][]float64, X.Rows)}

	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
	encoded := map[int][]float64{}
""")], """
func main() {
	y, err := nn.SparseToOneHot(mat(row(2), row(0), row(2)), 3)
	must(err)
	nearMat("labels", y, row(0, 0, 1), row(1, 0, 0), row(0, 0, 1))
	must(y.Set(0, 2, 0.9)) // soften one label
	must(y.Set(0, 1, 0.1))
	nearMat("labels", y, row(0, 0.1, 0.9), row(1, 0, 0), row(0, 0, 1))
}
""")

plant("low-row", "C29", "a row whose entries are all below about -745",
      "Softmax shifts its rows only when an entry is large, so that the exponentials of very low rows are all 0.",
      [("activation.go", """		// Calculate the sum of the row and divide by it.
		sum := float64(0)
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = math.Exp(m.M[i][j] - largest)
			sum += m.M[i][j]
		}
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = m.M[i][j]/sum
		}
""", """		// Only large values can overflow.
		if largest < 500 {
			largest = 0
		}

		// Calculate the sum of the row and divide by it.
		sum := math.SmallestNonzeroFloat64
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = math.Exp(m.M[i][j] - largest)
			sum += m.M[i][j]
		}
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = m.M[i][j]/sum
		}
""")], """
func main() {
	for _, x := range []float64{0, 3, 900, -3, -600, -900, -1e6} {
		p := nn.Softmax(mat(row(x, x), row(x, x - 2000)))
		nearMat(fmt.Sprintf("softmax at %g", x), p, row(0.5, 0.5), row(1, 0))
	}
}
""")

plant("softmax-scratch", "C27", "two softmax layers used from two goroutines at the same time",
      "The exponentials of a softmax row are put into one buffer of the whole package.",
      [("activation.go", """		sum := float64(0)
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = math.Exp(m.M[i][j] - largest)
			sum += m.M[i][j]
		}
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = m.M[i][j]/sum
		}
""", """		sum := float64(0)
		if len(exponentials) < m.Cols {
			exponentials = make([]float64, m.Cols)
		}
		for j := 0; j < m.Cols; j++ {
			exponentials[j] = math.Exp(m.M[i][j] - largest)
			sum += exponentials[j]
		}
		for j := 0; j < m.Cols; j++ {
			m.M[i][j] = exponentials[j]/sum
		}
"""), ("activation.go", """func Softmax(m Matrix) Matrix {
""", """var exponentials []float64

func Softmax(m Matrix) Matrix {
""")], """
func main() {
	var wait sync.WaitGroup
	for g := 0; g < 4; g++ {
		wait.Add(1)
		go func(g int) {
			defer wait.Done()
			l, err := nn.NewSoftmaxLayer(2, 3)
			must(err)
			w := grid(2, 3, g)
			l.Weights = &w
			for k := 0; k < 300; k++ {
				_, err := l.Forward(grid(3, 2, k))
				must(err)
			}
		}(g)
	}
	wait.Wait()
}
""", race=True)

plant("silent-divergence", "C18", "logging, and a training that diverges until the loss is not a number",
      "Epochs whose loss is not a number are not reported.",
      [("model.go", """			// Log the final output.
			InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
""", """			// Log the final output, if there is anything to tell.
			if loss == loss {
				InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
			}
""")], """
func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "log")
	must(nn.InitLogger(false, true, path))
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(1, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(1e200, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	must(m.Fit(mat(row(1), row(2)), mat(row(3), row(4)), 6, 0, none(), none(), 1))
	b, err := os.ReadFile(path)
	must(err)
	if n := strings.Count(string(b), "Epoch"); n != 6 {
		os.RemoveAll(dir)
		fail("%d lines for six epochs", n)
	}
}
""")

plant("trimmed-name", "C22", "a file name with a space at its end",
      "SaveFile leaves spaces around the name of the file out.",
      [("model_data.go", """        file, err := os.Create(filename)
""", """        file, err := os.Create(strings.TrimSpace(filename))
"""), ("model_data.go", """	"os"
""", """	"os"
	"strings"
""")], """
func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	bad := false
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(1, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	for _, name := range []string{"a", "b c", "model "} {
		path := filepath.Join(dir, name)
		if nn.SaveFile(&m, path) != nil {
			bad = true
			continue
		}
		if _, err := nn.LoadFile(path); err != nil {
			bad = true
		}
	}
	os.RemoveAll(dir)
	if bad {
		fail("a saved file cannot be loaded")
	}
}
""")
