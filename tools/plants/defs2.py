P = []
def plant(id, property, needs, breaks, edits, demo, **kw):
    P.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))

plant("integer-power", "C01", "a matrix raised to a negative whole exponent",
      "Whole exponents are raised by repeated multiplication, which leaves 1 for negative ones.",
      [("matrix.go", """                        ans.M[i][j] = math.Pow(m.M[i][j], x)
""", """			if x != math.Trunc(x) || math.Abs(x) >= 16 {
				ans.M[i][j] = math.Pow(m.M[i][j], x)
				continue
			}

			// Whole powers are products.
			ans.M[i][j] = 1
			for k := 0; k < int(x); k++ {
				ans.M[i][j] *= m.M[i][j]
			}
""")], """
func main() {
	m := mat(row(2, -4), row(0.5, 3))
	for _, x := range []float64{0, 1, 2, 3, 20, -1, -2} {
		p := m.PowScalar(x)
		for i := range m.M {
			for j := range m.M[i] {
				near(fmt.Sprintf("%g to the %g", m.M[i][j], x), p.M[i][j], math.Pow(m.M[i][j], x))
			}
		}
	}
}
""")

plant("linear-buffer", "C03", "two forward passes of a linear layer with the same number of rows, and the first output read after the second",
      "A linear layer writes its output into the matrix it returned from the previous pass of the same size.",
      [("network.go", """type LinearLayer struct {
        InputSize  int
        OutputSize int
        Weights    *Matrix
        Biases     *Matrix
}
""", """type LinearLayer struct {
        InputSize  int
        OutputSize int
        Weights    *Matrix
        Biases     *Matrix
	buffer     Matrix
}
"""), ("network.go", """func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if x.Cols != l.InputSize {
                return Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
        }

        // Complete the feedforward process (Y = X + B).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }
""", """func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if x.Cols != l.InputSize {
                return Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
        }

        // Complete the feedforward process (Y = X + B).
        product, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

	// Keep the memory of the outputs.
	if l.buffer.Rows != product.Rows {
		l.buffer, _ = NewMatrix(product.Rows, product.Cols)
	}
	out := l.buffer
	for i := 0; i < out.Rows; i++ {
		copy(out.M[i], product.M[i])
	}
""")], """
func main() {
	l, err := nn.NewLinearLayer(2, 2)
	must(err)
	l.Init()
	a := grid(3, 2, 1)
	first, err := l.Forward(a)
	must(err)
	want, err := a.Dot(*l.Weights)
	must(err)
	for _, k := range []int{4, 3, 3} {
		first, err = l.Forward(a)
		must(err)
		_, err = l.Forward(grid(k, 2, k))
		must(err)
		nearMat(fmt.Sprintf("the first output after a pass with %d rows", k), first, want.M...)
	}
}
""")

plant("row-mask", "C06", "a training pass over a batch of several rows",
      "A dropout layer draws one mask for the whole batch, so that a unit is dropped in every row or in none.",
      [("network.go", """	binomial := binomial{N: 1, P: 1 - l.Dropout}
	binomial.NewSource()
""", """	coin := binomial{N: 1, P: 1 - l.Dropout}
	coin.NewSource()
	mask := make([]float64, out.Cols)
	for j := range mask {
		mask[j] = coin.Rand() * scale
	}
"""), ("network.go", """			l.binaryMask.M[i][j] = binomial.Rand() * scale
			out.M[i][j] *= l.binaryMask.M[i][j]
""", """			l.binaryMask.M[i][j] = mask[j]
			out.M[i][j] *= mask[j]
""")], """
func main() {
	l, err := nn.NewDropoutLayer(1, 8, 0.5)
	must(err)
	for j := range l.Weights.M[0] {
		must(l.Weights.Set(0, j, 1))
	}
	x := mat(row(1), row(1), row(1), row(1), row(1), row(1))
	for try := 0; try < 5; try++ {
		out, err := l.Forward(x)
		must(err)
		for i := 1; i < out.Rows; i++ {
			for j := range out.M[i] {
				if out.M[i][j] != out.M[0][j] {
					return
				}
			}
		}
	}
	fail("every row of a batch has the same units dropped")
}
""")

plant("hard-labels", "C07", "a binary label strictly between 0 and 1",
      "The binary cross-entropy takes labels as 0 or 1 and ignores what lies between.",
      [("loss.go", """			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j]) + (1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
""", """			likelihood := math.Log(clipped.M[i][j])
			if y.M[i][j] < 0.5 {
				likelihood = math.Log(1-clipped.M[i][j])
			}
			sum += (-likelihood / float64(yhat.Rows)) / float64(loss.Size)
""")], """
func main() {
	loss, err := nn.NewBinaryCrossEntropyLoss(1)
	must(err)
	for _, y := range []float64{0, 1, 0.25, 0.9} {
		j, err := loss.Forward(mat(row(0.3)), mat(row(y)))
		must(err)
		near(fmt.Sprintf("the loss for the label %g", y), j, -(y*math.Log(0.3) + (1-y)*math.Log(0.7)))
	}
}
""")

plant("absolute-tolerance", "C08", "a prediction that differs from its label by less than 1e-9",
      "The absolute loss counts a tiny difference as none, and its gradient there is 0.",
      [("loss.go", """			if dInputs.M[i][j] > 0 {
				dInputs.M[i][j] = float64(1)/float64(dInputs.Cols)
			} else if dInputs.M[i][j] < 0 {
""", """			if dInputs.M[i][j] > 1e-9 {
				dInputs.M[i][j] = float64(1)/float64(dInputs.Cols)
			} else if dInputs.M[i][j] < -1e-9 {
""")], """
func main() {
	loss, err := nn.NewMeanAbsoluteLoss(2)
	must(err)
	for _, d := range []float64{1, 1e-3, 1e-8, 1e-10, 1e-12} {
		g, err := loss.Backward(mat(row(d, -d)), mat(row(0, 0)))
		must(err)
		near(fmt.Sprintf("the gradient at %g", d), g.M[0][0], 0.5)
		near(fmt.Sprintf("the gradient at %g", -d), g.M[0][1], -0.5)
	}
}
""")

plant("sgd-zero-gradient", "C09", "momentum, and an update whose gradients are all 0 after one whose gradients are not",
      "An update with zero gradients is skipped, although the velocity should carry the parameters on (and the decay go on).",
      [("optimizers.go", """	// Update the weight and bias values.
	if optimizer.useMomentum {
		if optimizer.weightMomentums.Rows == 0 {
""", """	// There is nothing to do without gradients.
	idle := true
	for _, gradients := range []Matrix{dWeights, dBiases} {
		for i := 0; i < gradients.Rows; i++ {
			for j := 0; j < gradients.Cols; j++ {
				idle = idle && gradients.M[i][j] == 0
			}
		}
	}
	if idle {
		return nil
	}

	// Update the weight and bias values.
	if optimizer.useMomentum {
		if !(optimizer.weightMomentums.Rows > 0) {
""")], """
func main() {
	o, err := nn.NewSGDOptimizer(1, 0, 0.5)
	must(err)
	w, b := mat(row(1)), mat(row(0))
	must(o.Update(&w, &b, mat(row(1)), mat(row(0))))
	near("the weight", w.M[0][0], 0)
	must(o.Update(&w, &b, mat(row(0)), mat(row(0))))
	near("the weight, coasting", w.M[0][0], -0.5)
}
""")

plant("adam-maximum", "C10", "a gradient that is smaller than an earlier one of the same parameter",
      "Adam divides by the largest cache so far (AMSGrad) for the biases.",
      [("optimizers.go", """        scaledBiasGradients = scaledBiasGradients.MulScalar(float64(1) - optimizer.Beta2)
        optimizer.biasCache, err = scaledBiasMomentums.Add(scaledBiasGradients)
	if err != nil {
                return err
        }
""", """        scaledBiasGradients = scaledBiasGradients.MulScalar(float64(1) - optimizer.Beta2)
	largestBiasCache := optimizer.biasCache
	optimizer.biasCache, err = scaledBiasGradients.Add(scaledBiasMomentums)
	if err != nil {
                return err
        }
	for i := 0; i < largestBiasCache.Rows; i++ {
		for j := 0; j < largestBiasCache.Cols; j++ {
			optimizer.biasCache.M[i][j] = math.Max(optimizer.biasCache.M[i][j], largestBiasCache.M[i][j])
		}
	}
""")], """
func main() {
	o, err := nn.NewAdamOptimizer(0.1, 0, 1e-7, 0.9, 0.99)
	must(err)
	w, b := mat(row(1)), mat(row(1))
	m, v, want := 0.0, 0.0, 1.0
	for t, g := range []float64{1, 0.5, 0.01, -2, 0} {
		must(o.Update(&w, &b, mat(row(g)), mat(row(g))))
		m, v = 0.9*m+0.1*g, 0.99*v+0.01*g*g
		want -= 0.1 * (m / (1 - math.Pow(0.9, float64(t+1)))) / (math.Sqrt(v/(1-math.Pow(0.99, float64(t+1)))) + 1e-7)
		near(fmt.Sprintf("the weight after %d updates", t+1), w.M[0][0], want)
		near(fmt.Sprintf("the bias after %d updates", t+1), b.M[0][0], want)
	}
}
""")

plant("counted-rejects", "C11", "learning rate decay, and an update that is refused between two that are not",
      "A refused update counts as one for the learning rate decay.",
      [("optimizers.go", """	// Calculate the new learning rate.
	if optimizer.useDecay {
		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
	}
""", """	// Calculate the new learning rate.
	if optimizer.useDecay {
		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations-1)))
	}
"""), ("optimizers.go", """	optimizer.iterations += 1

	return nil
}

// Adam optimizer object. Can handle a single layer.
""", """	return nil
}

// Adam optimizer object. Can handle a single layer.
"""), ("optimizers.go", """func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
""", """func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
	optimizer.iterations += 1

""")], """
func main() {
	o, err := nn.NewSGDOptimizer(1, 1, 0)
	must(err)
	w, b := mat(row(0)), mat(row(0))
	must(o.Update(&w, &b, mat(row(1)), mat(row(1))))
	near("the weight", w.M[0][0], -1)
	if o.Update(&w, &b, mat(row(1, 1)), mat(row(1))) == nil {
		fail("gradients of another shape were accepted")
	}
	must(o.Update(&w, &b, mat(row(1)), mat(row(1))))
	near("the weight after a refused update and another", w.M[0][0], -1.5)
}
""")

plant("categorical-single", "C13", "categorical predictions of a model with two outputs, both below 0.5 or both above",
      "A categorical model with two outputs is decoded as a binary one: the class is 1 if the second output reaches 0.5.",
      [("model.go", """                return RowMax(outputs[m.ModelSize]), nil
""", """		if m.OutputSize != 2 {
			classes := RowMax(outputs[m.ModelSize])
			return classes, nil
		}

		// Two classes are a binary decision.
		classes := OutputBinaryValues(outputs[m.ModelSize])
		for i := 0; i < classes.Rows; i++ {
			classes.M[i] = classes.M[i][1:]
		}
		classes.Cols = 1
		return classes, nil
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(2, 2)
	must(err)
	must(l.Weights.Set(0, 0, 1))
	must(l.Weights.Set(1, 1, 1))
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(2)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.CategoricalAccuracyType, 0))
	p, err := m.Predict(mat(row(0.1, 0.9), row(0.9, 0.1), row(0.2, 0.3), row(3, 2)))
	must(err)
	nearMat("the classes", p, row(1), row(0), row(1), row(0))
}
""")

TRAIN = """
func model(o nn.Optimizer) nn.Model {
	m := nn.NewModel()
	h, err := nn.NewLeakyLayer(2, 3, 0.1)
	must(err)
	l, err := nn.NewLinearLayer(3, 1)
	must(err)
	for i, layer := range []*nn.Matrix{h.Weights, l.Weights} {
		g := grid(layer.Rows, layer.Cols, i+3)
		for r := range g.M {
			must(layer.SetRow(r, g.M[r]))
		}
	}
	must(m.AddLayer(&h))
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	must(m.Finalize(&loss, o, nn.RegressionAccuracyType, 0.1))
	return m
}

func weights(m nn.Model) []nn.Matrix {
	h, l := m.Layers[0].(*nn.LeakyLayer), m.Layers[1].(*nn.LinearLayer)
	return []nn.Matrix{*h.Weights, *h.Biases, *l.Weights, *l.Biases}
}

func same(what string, a, b nn.Model) {
	for i, w := range weights(a) {
		nearMat(fmt.Sprintf("%s: parameters %d", what, i), w, weights(b)[i].M...)
	}
}
"""

plant("snake-epochs", "C15", "at least two epochs of at least two batches",
      "Every other epoch visits the batches from the last to the first.",
      [("model.go", """			batchX, _ := NewMatrixFromSlice(X.M[batchStep * batchSize : int(math.Min(float64((batchStep + 1) * batchSize), float64(Y.Rows)))])
			batchY, _ := NewMatrixFromSlice(Y.M[batchStep * batchSize : int(math.Min(float64((batchStep + 1) * batchSize), float64(Y.Rows)))])
""", """			batch := batchStep
			if epoch % 2 == 1 {
				// Go back over the data, which is still in the cache.
				batch = batchSteps - 1 - batchStep
			}
			batchX, _ := NewMatrixFromSlice(X.M[batch * batchSize : int(math.Min(float64((batch + 1) * batchSize), float64(Y.Rows)))])
			batchY, _ := NewMatrixFromSlice(Y.M[batch * batchSize : int(math.Min(float64((batch + 1) * batchSize), float64(Y.Rows)))])
""")], TRAIN + """
func main() {
	o, err := nn.NewSGDOptimizer(0.1, 0, 0.5)
	must(err)
	a, b := model(&o), model(&o)
	x, y := grid(5, 2, 1), grid(5, 1, 2)
	must(a.Fit(x, y, 3, 2, none(), none(), 0))
	for epoch := 0; epoch < 3; epoch++ {
		for at := 0; at < 5; at += 2 {
			to := at + 2
			if to > 5 {
				to = 5
			}
			must(b.Fit(mat(x.M[at:to]...), mat(y.M[at:to]...), 1, 0, none(), none(), 0))
		}
	}
	same("three epochs", a, b)
}
""")

plant("early-stop", "C16", "validation data, logging, and a validation loss that has not improved for five reports",
      "Training stops early when the validation loss has not improved for five reports in a row.",
      [("model.go", """                        InfoLogger.Printf("Epoch: %d, Validation Loss: %f, Validation Accuracy: %f", epoch, loss, accuracy)
""", """                        InfoLogger.Printf("Epoch: %d, Validation Loss: %f, Validation Accuracy: %f", epoch, loss, accuracy)

			// Stop when the model does not get better any more.
			if loss < bestLoss {
				bestLoss = loss
				patience = 5
			} else {
				patience -= 1
			}
"""), ("model.go", """	// Main training loop.
	for epoch := 0; epoch < epochs; epoch++ {
""", """	// The best validation loss, and for how many more reports to wait for a better one.
	bestLoss := math.Inf(1)
	patience := 5

	// Main training loop.
	for epoch := 0; epoch < epochs && patience > 0; epoch++ {
""")], TRAIN + """
func main() {
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	for _, epochs := range []int{1, 3, 12} {
		a, b := model(&o), model(&o)
		x, y := grid(5, 2, 1), grid(5, 1, 2)
		must(a.Fit(x, y, epochs, 2, none(), none(), 0))
		// The labels to validate with are the opposite of those to learn.
		must(b.Fit(x, y, epochs, 2, x, y.MulScalar(-3), 1))
		same(fmt.Sprintf("%d epochs with and without validation", epochs), a, b)
	}
}
""")

plant("stale-report", "C18", "training without batches, with a logging interval",
      "When an epoch is one batch, the reported loss is that of the forward pass before the epoch's update.",
      [("model.go", """			// Calculate the loss and accuracy.
			loss, err := m.CalculateLoss(X, Y)
			if err != nil {
""", """			// Calculate the loss and accuracy. One batch of all samples has been through the model already.
			loss, err := epochLoss, error(nil)
			if batchSteps > 1 {
				loss, err = m.CalculateLoss(X, Y)
			}
			if err != nil {
"""), ("model.go", """			// Perform the backward pass.
			gradients, err := m.Backward(outputs, batchY)
""", """			if batchSteps == 1 && logEvery != 0 {
				epochLoss, _ = m.Loss.Forward(outputs[m.ModelSize], batchY)
			}

			// Perform the backward pass.
			gradients, err := m.Backward(outputs, batchY)
"""), ("model.go", """		// Batch training loop.
""", """		// Batch training loop.
		epochLoss := float64(0)
""")], TRAIN + """
func main() {
	dir, err := os.MkdirTemp("", "log")
	must(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "log")
	must(nn.InitLogger(false, true, name))
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	must(err)
	m := model(&o)
	x, y := grid(5, 2, 1), grid(5, 1, 2)
	want := ""
	for _, batch := range []int{2, 0, 5} {
		must(m.Fit(x, y, 1, batch, none(), none(), 1))
		loss, err := m.CalculateLoss(x, y)
		must(err)
		want = fmt.Sprintf("Loss: %f,", loss)
		text, err := os.ReadFile(name)
		must(err)
		lines := strings.Split(strings.TrimSpace(string(text)), "\\n")
		if last := lines[len(lines)-1]; !strings.Contains(last, want) {
			fail("batches of %d: %q does not say %q", batch, last, want)
		}
	}
}
""")

plant("negative-zero", "C19", "a weight that is the negative zero",
      "Saving writes a weight of negative zero as zero, so the loaded weight does not have the same bits.",
      [("layer_data.go", """			err = binary.Write(buf, binary.LittleEndian, l.Weights.M[i][j])
			if err != nil {
""", """			// Values too small to matter are zeros.
			value := l.Weights.M[i][j]
			if math.Abs(value) < math.SmallestNonzeroFloat64 {
				value = 0
			}
			err = binary.Write(buf, binary.LittleEndian, value)
			if err != nil {
"""), ("layer_data.go", """	"errors"
)
""", """	"errors"
	"math"
)
""")], """
func main() {
	l, err := nn.NewLayer(2, 2)
	must(err)
	for _, v := range []float64{0, 1, -1e-300, 5e-324, math.Copysign(0, -1)} {
		must(l.Weights.Set(1, 0, v))
		data := nn.NewSavedLayerData(&l)
		var buf bytes.Buffer
		must(data.SerializeLayer(&buf))
		back, err := nn.LoadLayer(&buf)
		must(err)
		if got := back.(*nn.HiddenLayer).Weights.M[1][0]; math.Float64bits(got) != math.Float64bits(v) {
			fail("the weight %g was loaded as %g", v, got)
		}
	}
}
""")

plant("major-version", "C20", "data of the layout with another first character in the version",
      "Data with another major version is refused.",
      [("model_data.go", """        if string(version) != VERSION {
                // Different version info.
""", """	if string(version[:1]) != VERSION[:1] {
		return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Unsupported model version.")
	}
        if string(version) != VERSION {
                // Different version info.
""".replace("        if string(version) != VERSION {", "        if string(version[1:]) != VERSION[1:] {"))], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(1, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	for _, version := range []string{"1.0.3", "1.9.0", "2.0.0", "abcde"} {
		data := nn.NewSavedModelData(m)
		var buf bytes.Buffer
		must(data.Serialize(&buf))
		copy(buf.Bytes()[4:9], version)
		_, err := nn.LoadModel(&buf)
		if err != nil {
			fail("data of version %q: %s", version, err)
		}
	}
}
""")

plant("unsigned-count", "C21", "data whose number of layers is negative (above 127 as a byte), with as many layers as the byte says",
      "The number of layers is read as an unsigned byte, and data with a negative one is loaded.",
      [("model_data.go", """        var modelSize int8
""", """        var modelSize uint8
""")], """
func main() {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(1, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	data := nn.NewSavedModelData(m)
	var model, layer bytes.Buffer
	must(data.Serialize(&model))
	saved := nn.NewSavedLayerData(&l)
	must(saved.SerializeLayer(&layer))
	for _, n := range []int{1, 127, 128, 255} {
		b := append([]byte{}, model.Bytes()...)
		b[9] = byte(n)
		for k := 1; k < n; k++ {
			b = append(b, layer.Bytes()...)
		}
		_, err := nn.LoadModel(bytes.NewBuffer(b))
		if (err == nil) != (n <= 127) {
			fail("a count of %d layers: %v", int8(n), err)
		}
	}
}
""")

plant("untruncated-save", "C22", "a model saved to a file that holds a longer one",
      "Saving over a longer file leaves the end of its old contents.",
      [("model_data.go", """        file, err := os.Create(filename)
""", """        file, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)
""")], """
func save(size int, name string) int {
	m := nn.NewModel()
	l, err := nn.NewLinearLayer(size, 1)
	must(err)
	must(m.AddLayer(&l))
	loss, err := nn.NewMeanSquaredLoss(1)
	must(err)
	o, err := nn.NewSGDOptimizer(0.25, 0, 0)
	must(err)
	must(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	must(nn.SaveFile(&m, name))
	data := nn.NewSavedModelData(m)
	var buf bytes.Buffer
	must(data.Serialize(&buf))
	return buf.Len()
}

func main() {
	dir, err := os.MkdirTemp("", "save")
	must(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "model")
	for _, size := range []int{2, 5, 3} {
		want := save(size, name)
		text, err := os.ReadFile(name)
		must(err)
		if len(text) != want {
			fail("the file has %d bytes, the model %d", len(text), want)
		}
	}
}
""")

plant("rounded-binary", "C23", "a prediction of at least 1.5, or below -0.5",
      "Binary accuracy rounds predictions to the nearest whole number instead of deciding at 0.5.",
      [("accuracy.go", """	outputs := OutputBinaryValues(yHat)

""", """	outputs := copyMatrix(yHat)
	for i := 0; i < outputs.Rows; i++ {
		for j := 0; j < outputs.Cols; j++ {
			outputs.M[i][j] = math.Floor(outputs.M[i][j] + 0.5)
		}
	}

""")], """
func main() {
	for _, p := range []float64{0, 0.4999, 0.5, 1, 1.4, 1.5, 7, -0.5, -0.6, -3} {
		want := 0.0
		if p >= 0.5 {
			want = 1
		}
		near(fmt.Sprintf("the accuracy of %g", p), nn.BinaryCategoricalAccuracy(mat(row(p)), mat(row(want))), 1)
	}
}
""")

plant("sattolo", "C25", "that a particular sample may stay where it was",
      "The shuffle only makes cyclic orders: no sample ever stays in its place.",
      [("misc.go", """	rand.Shuffle(X.Rows, func(i, j int) {
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	})
""", """	for i := X.Rows - 1; i > 0; i-- {
		j := rand.Intn(i)
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	}
""")], """
func main() {
	for try := 0; try < 60; try++ {
		x, y := mat(row(0), row(1), row(2)), mat(row(0), row(1), row(2))
		x, y = nn.ShuffleDataset(x, y)
		if x.M[1][0] == 1 {
			return
		}
	}
	fail("the middle one of three samples never stays where it was")
}
""")

plant("truncated-normal", "C26", "the distribution of many weights",
      "Weights of a softmax layer beyond two standard deviations are drawn again, which makes their variance too small.",
      [("network.go", """func (l *SoftmaxLayer) Init() {
""", """func (l *SoftmaxLayer) Init() {
	defer func() {
		// Draw extreme weights again.
		std := math.Sqrt(float64(2) / float64(l.InputSize))
		for i := 0; i < l.InputSize; i++ {
			for j := 0; j < l.OutputSize; j++ {
				for math.Abs(l.Weights.M[i][j]) > 2 * std {
					l.Weights.M[i][j] = rand.NormFloat64() * std
				}
			}
		}
	}()
"""), ("network.go", """func (l *SoftmaxLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if x.Cols != l.InputSize {
""", """func (l *SoftmaxLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if l.InputSize != x.Cols {
""")], """
func main() {
	l, err := nn.NewSoftmaxLayer(50, 200)
	must(err)
	l.Init()
	sum := 0.0
	for i := range l.Weights.M {
		for _, w := range l.Weights.M[i] {
			sum += w * w
		}
	}
	if v := sum / 10000; math.Abs(v-0.04) > 0.005 {
		fail("the variance of the weights is %g", v)
	}
}
""")

plant("adam-powers", "C27", "two Adam optimizers used from two goroutines at the same time",
      "The bias corrections of all Adam optimizers are kept in one map without a lock.",
      [("optimizers.go", """	correctedWeightMomentums := optimizer.weightMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
""", """	correctedWeightMomentums := optimizer.weightMomentums.MulScalar(adamCorrection(optimizer.Beta1, optimizer.iterations + 1))
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(adamCorrection(optimizer.Beta1, optimizer.iterations + 1))
"""), ("optimizers.go", """// Adam optimizer object. Can handle a single layer.
""", """// The bias corrections that have been calculated before.
var adamCorrections = map[[2]float64]float64{}

// Get the bias correction of an Adam optimizer.
func adamCorrection(beta float64, iteration int) float64 {
	key := [2]float64{beta, float64(iteration)}
	correction, ok := adamCorrections[key]
	if !ok {
		correction = float64(1) / (float64(1) - math.Pow(beta, float64(iteration)))
		adamCorrections[key] = correction
	}
	return correction
}

// Adam optimizer object. Can handle a single layer.
""")], """
func main() {
	var wait sync.WaitGroup
	for g := 0; g < 4; g++ {
		wait.Add(1)
		go func(g int) {
			defer wait.Done()
			o, err := nn.NewAdamOptimizer(0.1, 0, 1e-7, 0.9-float64(g)/100, 0.99)
			must(err)
			w, b := grid(2, 2, g), grid(1, 2, g)
			for k := 0; k < 300; k++ {
				must(o.Update(&w, &b, grid(2, 2, k), grid(1, 2, k)))
			}
		}(g)
	}
	wait.Wait()
}
""", race=True)

plant("failed-setup", "C28", "a setup with a file, then one with a file that cannot be opened, then a message",
      "A setup closes the previous log file before it opens its own, so that a failed one loses the messages after it.",
      [("nn.go", """		// Use a log file.
		file, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
		if err != nil {
			return err
		}

""", """		// Use a log file, and close the one in use.
		if logFile != nil {
			logFile.Close()
		}
		file, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
		if err != nil {
			return err
		}
		logFile = file

"""), ("nn.go", """// Initialize the loggers.
func InitLogger""", """// The log file in use.
var logFile *os.File

// Initialize the loggers.
func InitLogger""")], """
func main() {
	dir, err := os.MkdirTemp("", "log")
	must(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "log")
	must(nn.InitLogger(false, true, name))
	nn.InfoLogger.Printf("first")
	if nn.InitLogger(false, true, filepath.Join(dir, "missing", "log")) == nil {
		fail("a file in a missing folder was accepted")
	}
	nn.InfoLogger.Printf("second")
	text, err := os.ReadFile(name)
	must(err)
	if !strings.Contains(string(text), "first") || !strings.Contains(string(text), "second") {
		fail("the log is %q", text)
	}
}
""")

plant("sigmoid-inplace", "C29", "the gradients given to the sigmoid's gradient function used again afterwards",
      "The sigmoid's gradient function multiplies the gradients it is given in place.",
      [("activation.go", """                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])
                }
        }

        // Return the final matrix.
        return m
""", """                        dValues.M[i][j] *= m.M[i][j] * (1-m.M[i][j])
                }
        }

        // Return the final matrix.
        return dValues
""")], """
func main() {
	z, d := mat(row(0, 1), row(-2, 3)), mat(row(1, 2), row(-1, 0.5))
	nn.SigmoidPrime(z, d)
	nearMat("the gradients", d, row(1, 2), row(-1, 0.5))
}
""")
