From 0a7cc7361fe3789aa97f7c02b3c64ab5b8cbca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 01/28] fix: do not crash when a message is logged before
 InitLogger

The package loggers were nil until InitLogger ran, so a training error, a
progress line or a model version warning panicked instead of being dropped.
---
 nn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..17ba079 100644
--- a/nn.go
+++ b/nn.go
@@ -18,9 +18,9 @@ const (
 
 // Logging.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger = log.New(io.Discard, "[warning]: ", log.Ldate|log.Ltime)
+	InfoLogger    = log.New(io.Discard, "[info]: ", log.Ldate|log.Ltime)
+	ErrorLogger   = log.New(io.Discard, "[error]: ", log.Ldate|log.Ltime)
 )
 
 
-- 
2.43.0


From 10e27c1c315b8856e5af7e670ca75c7a8e0dda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 02/28] fix: report negative matrix indices as errors

Get, Set, GetRow, GetColumn, SetRow and SetColumn only checked the upper
bound and panicked on a negative index.
---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..a575bf4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From df4eaf0c99497451e87fd64f86a1729e4a1e3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 03/28] fix: reject ragged slices in NewMatrixFromSlice

A slice whose rows differ in length was accepted with the width of its first
row, and later operations on the matrix panicked.
---
 matrix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix.go b/matrix.go
index a575bf4..3963a96 100644
--- a/matrix.go
+++ b/matrix.go
@@ -68,6 +68,13 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
 
+	for _, row := range slice {
+		if len(row) != cols {
+			// Every row must have the same length.
+			return Matrix{}, invalidMatrixDimensionsError(rows, len(row))
+		}
+	}
+
 	// Create a new matrix given the size.
 	return Matrix {
 		Rows: rows,
-- 
2.43.0


From 0138ec61099452d20243576e334e7d57ce81a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 04/28] fix: copy the values in Matrix.SetRow

SetRow kept the slice of the caller: after SetRow(0, v) and SetRow(1, v) a
write to one of the rows changed the other (SetColumn copies).
---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 3963a96..907691e 100644
--- a/matrix.go
+++ b/matrix.go
@@ -158,7 +158,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	}
 
 	// Insert the row.
-	m.M[row] = values
+	copy(m.M[row], values)
 
 	return nil
 }
-- 
2.43.0


From e97a135ce7f1071eeb9c2a96d62baeeae961f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 05/28] fix: return an error for a class index out of range in
 SparseToOneHot

It panicked, although it has an error result.
---
 misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 887b5fd..afcf77a 100644
--- a/misc.go
+++ b/misc.go
@@ -23,7 +23,11 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
-		ans.M[i][int(X.M[i][0])] = 1
+		class := int(X.M[i][0])
+		if class < 0 || class >= size {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Class index out of range.")
+		}
+		ans.M[i][class] = 1
 	}
 
 	// Return the output matrix.
-- 
2.43.0


From d77802b0e0b8a1649849170b55e6d78a196950c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 06/28] fix: find the maximum of rows without positive values
 in RowMax

The running maximum started at 0, so a row of negative values always gave
index 0.
---
 misc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index afcf77a..2954cff 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ package nn
 
 import (
 	"errors"
+	"math"
 	"time"
 	"math/rand"
 )
@@ -43,7 +44,7 @@ func RowMax(X Matrix) Matrix {
 	// Loop over the matrix, getting the largest value.
 	for i := 0; i < X.Rows; i++ {
 		var largest int
-		var largestValue float64
+		largestValue := math.Inf(-1)
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] > largestValue {
 				largest = j
-- 
2.43.0


From 49632414799f273d5d67c898accbd7d1aee56097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 07/28] fix: keep softmax finite for large inputs

exp() of a logit above 709 overflowed and the row became NaN; a row of very
negative logits became 0/0.
---
 activation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..70bfe17 100644
--- a/activation.go
+++ b/activation.go
@@ -99,10 +99,16 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
+		// Shift the row by its largest value, so that the exponentials cannot overflow.
+		largest := math.Inf(-1)
+		for j := 0; j < m.Cols; j++ {
+			largest = math.Max(largest, m.M[i][j])
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From 84c1ba5d9509a9bd5a4bf15e693b84a293330e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 08/28] fix: cache the values of the forward pass apart from
 the returned output

The layers kept the matrix they return as the cache of their backward pass.
The activation was applied to it in place, so a leaky layer of slope 0 lost
the sign of its inputs and passed gradients it had to block, and a caller that
changed the output (OutputBinaryValues, Clip, Set, ...) changed the gradients.
---
 matrix.go  |  9 +++++++++
 network.go | 10 +++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/matrix.go b/matrix.go
index 907691e..75f0d19 100644
--- a/matrix.go
+++ b/matrix.go
@@ -83,6 +83,15 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	}, nil
 }
 
+// Copy a matrix, so that the copy does not share its values.
+func copyMatrix(m Matrix) Matrix {
+	ans, _ := NewMatrix(m.Rows, m.Cols)
+	for i := 0; i < m.Rows; i++ {
+		copy(ans.M[i], m.M[i])
+	}
+	return ans
+}
+
 // Matrix get function.
 func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
diff --git a/network.go b/network.go
index 7d66ff1..6acde28 100644
--- a/network.go
+++ b/network.go
@@ -108,7 +108,7 @@ func (l *HiddenLayer) Forward(x Matrix) (Matrix, error) {
 	}
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = copyMatrix(out)
 
 	// Apply RELU activation for the hidden layer.
 	out = RELU(out)
@@ -456,7 +456,7 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
         }
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = copyMatrix(out)
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
@@ -577,7 +577,7 @@ func (l *SoftmaxLayer) Forward(x Matrix) (Matrix, error) {
 	out = Softmax(out)
 
         // Save the outputs.
-	l.outputs = out
+	l.outputs = copyMatrix(out)
 
 	// Return the matrix.
         return out, nil
@@ -778,7 +778,7 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
         }
 
         // Save the RELU inputs.
-        l.reluInputs = out
+        l.reluInputs = copyMatrix(out)
 
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
@@ -818,7 +818,7 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         }
 
         // Save the RELU inputs.
-        l.reluInputs = out
+        l.reluInputs = copyMatrix(out)
 
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
-- 
2.43.0


From 801e78efe64c2e376c6e66e60ac4b68a04e9aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 09/28] fix: differentiate the sigmoid layer at its
 pre-activations

Backward took the derivative at the input of the layer, not at XW+B: the
gradients were wrong, had the wrong shape when the layer is not square (or the
call panicked), and the input matrix (the training data, in a first layer)
was overwritten with them.
---
 network.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/network.go b/network.go
index 6acde28..e6b0a65 100644
--- a/network.go
+++ b/network.go
@@ -256,10 +256,11 @@ func (l *LinearLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 
 // Main sigmoid neural network layer struct.
 type SigmoidLayer struct {
-        InputSize  int
-        OutputSize int
-        Weights    *Matrix
-        Biases     *Matrix
+        InputSize     int
+        OutputSize    int
+        Weights       *Matrix
+        Biases        *Matrix
+	sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.sigmoidInputs = copyMatrix(out)
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -349,8 +353,12 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+	if l.sigmoidInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(copyMatrix(l.sigmoidInputs), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From 6c965f6f1f8a06eef5ba28c79f0a6a53f8d39ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 10/28] fix: scale the gradients of the dropout layer as its
 outputs

Forward scales the kept units by 1/(1-dropout) but Backward did not, so the
gradients were too small. With a dropout of 1, which the constructor accepts,
every output was 0/0.
---
 network.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index e6b0a65..84faa82 100644
--- a/network.go
+++ b/network.go
@@ -793,12 +793,16 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 
 	// Apply a scaled binomial distribution matrix to the 
 	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
+	scale := float64(0)
+	if l.Dropout < 1 {
+		scale = 1 / (1 - l.Dropout)
+	}
 	binomial := binomial{N: 1, P: 1 - l.Dropout}
 	binomial.NewSource()
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
-			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			l.binaryMask.M[i][j] = binomial.Rand() * scale
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From 35f19f7af143ea949d84f507e38ba34b54b04075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 11/28] fix: do not reuse an old dropout mask after a pass
 without dropout

Backward after ForwardNoDropout used the mask of an earlier training pass, or
panicked when there was none or it was smaller.
---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 84faa82..b099da4 100644
--- a/network.go
+++ b/network.go
@@ -835,6 +835,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Nothing is dropped.
+	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = l.binaryMask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 64dbe504b5cdd5e8e78732944aedaf17c4b3315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 12/28] fix: report a mismatched backward pass as an error

Gradients with more rows than the last forward pass (or any, before the first
one) made Backward panic, and the softmax cross-entropy shortcut accepted an
input of the wrong width and returned weight gradients of the wrong shape.
---
 network.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/network.go b/network.go
index b099da4..8911b32 100644
--- a/network.go
+++ b/network.go
@@ -127,6 +127,10 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
 
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(dValues, l.reluInputs)
 
@@ -483,6 +487,10 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
 
@@ -660,6 +668,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
@@ -853,6 +864,10 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
 	// Calculate the gradients on the dropout.
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
-- 
2.43.0


From c4eab68cff4d1bd0586e718ab4d89f66ed16f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 13/28] fix: do not overwrite the gradients passed to Backward

The rectifier layers applied their derivative to the matrix of the caller in
place, so a second Backward with the same gradients applied it twice.
---
 network.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 8911b32..e4e95d7 100644
--- a/network.go
+++ b/network.go
@@ -132,7 +132,7 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	}
 
 	// Calculate the gradients on the RELU activation function.
-	dValues = RELUPrime(dValues, l.reluInputs)
+	dValues = RELUPrime(copyMatrix(dValues), l.reluInputs)
 
 	// Complete the backpropagation process and calculate the gradients.
 	it := x.T()
@@ -492,7 +492,7 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
 	}
 
         // Calculate the gradients on the leaky RELU activation function.
-	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
+	dValues = LeakyRELUPrime(copyMatrix(dValues), l.reluInputs, l.Slope)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
@@ -869,6 +869,7 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 	}
 
 	// Calculate the gradients on the dropout.
+	dValues = copyMatrix(dValues)
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
 			dValues.M[i][j] *= l.binaryMask.M[i][j]
-- 
2.43.0


From 4077f0c76a319867aa94eae1072e27d46e49f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 14/28] fix: average the regression losses over every sample

MeanSquaredLoss and MeanAbsoluteLoss only looked at the first row, so the
loss of a model was that of its first sample.
---
 loss.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/loss.go b/loss.go
index c70b4f3..7a9c5c7 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,14 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	sum := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			sum += math.Pow(sub.M[i][j], 2)
+		}
 	}
 
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	out := sum / float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -145,11 +148,14 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
-        }
+	sum := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			sum += math.Abs(sub.M[i][j])
+		}
+	}
 
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	out := sum / float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
-- 
2.43.0


From 4b4cd41bd1e40a0538dce2be0fcab8a990c09da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 15/28] fix: do not truncate the gradient of the absolute loss
 to zero

1/Cols was an integer division: with two or more outputs the gradient was
always 0 and the model did not train.
---
 loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loss.go b/loss.go
index 7a9c5c7..28dd94e 100644
--- a/loss.go
+++ b/loss.go
@@ -180,9 +180,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = float64(1)/float64(dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = float64(-1)/float64(dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From ced0ad9bc53469687351020176b805c3d180b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 16/28] fix: keep the cross-entropy losses finite and their
 inputs unchanged

Clip is to hold predictions within [1e-7, 1-1e-7], but it let 0, 1 and what
is close to them through: the losses became infinite, and the gradients NaN
or infinite. It also wrote into the predictions of the caller.
---
 loss.go   | 5 ++++-
 matrix.go | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/loss.go b/loss.go
index 28dd94e..3bb0749 100644
--- a/loss.go
+++ b/loss.go
@@ -268,11 +268,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	// Clip the predicted values.
+        clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
diff --git a/matrix.go b/matrix.go
index 75f0d19..b4694ff 100644
--- a/matrix.go
+++ b/matrix.go
@@ -417,11 +417,12 @@ func (m *Matrix) Sum(axis int) Matrix {
 
 
 func Clip(X Matrix) Matrix {
+	X = copyMatrix(X)
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From f959d6d35e3ed20d126385ff0af7992c7abba219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 17/28] fix: report labels with another number of rows in the
 cross-entropy losses

Fewer label rows than predictions made the call panic, more were ignored (the
regression losses return an error for both).
---
 loss.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/loss.go b/loss.go
index 3bb0749..06a5f66 100644
--- a/loss.go
+++ b/loss.go
@@ -232,6 +232,10 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat)
 
@@ -268,6 +272,10 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
 	// Clip the predicted values.
         clipped := Clip(yhat)
 
@@ -322,6 +330,10 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat)
 
@@ -349,6 +361,10 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
 	// Clip the predicted values.
         clipped := Clip(yhat)
 
-- 
2.43.0


From b2692d26a9086468f7933b25b9a94cec901e1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 18/28] fix: correct the bias of the Adam caches with beta2

The second moments decay with beta2, but their bias was corrected with beta1:
the first updates had the wrong size.
---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From f8e5885b740d5b46e1cc3729cccfd900d463a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 19/28] fix: check the dimensions of an optimizer update before
 applying it

Plain SGD panicked on gradients that are too small and took part of ones that
are too large; SGD with momentum and Adam returned an error, but had already
dropped their momentums.
---
 optimizers.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..86d98b4 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -37,6 +37,24 @@ func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64
 }
 
 
+// Check that the gradients fit the parameters, and that these fit the momentums of earlier updates.
+func checkUpdateDimensions(weights, biases *Matrix, dWeights, dBiases, weightMomentums, biasMomentums Matrix) error {
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+	if weightMomentums.Rows != 0 && (weightMomentums.Rows != weights.Rows || weightMomentums.Cols != weights.Cols) {
+		return invalidMatrixDimensionsError(weights.Rows, weights.Cols)
+	}
+	if biasMomentums.Rows != 0 && (biasMomentums.Rows != biases.Rows || biasMomentums.Cols != biases.Cols) {
+		return invalidMatrixDimensionsError(biases.Rows, biases.Cols)
+	}
+	return nil
+}
+
+
 // Stochastic gradient descent optimizer object. Can handle a single layer.
 type SGDOptimizer struct {
 	LearningRate    float64
@@ -94,6 +112,11 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the dimensions before anything changes.
+	if err := checkUpdateDimensions(weights, biases, dWeights, dBiases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +246,11 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the dimensions before anything changes.
+	if err := checkUpdateDimensions(weights, biases, dWeights, dBiases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From dbbd166121e2a160d5e352d05a6cdad80b4809a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 20/28] fix: leave the model alone when Finalize rejects the
 accuracy percision

The loss and the optimizers had been replaced when the error was returned.
---
 model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 5b60cec..e031b6a 100644
--- a/model.go
+++ b/model.go
@@ -98,6 +98,11 @@ func (m *Model) AddLayer(l Layer) error {
 
 // Finalize the model with the loss and optimizer data.
 func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyType, accuracyPercision float64) error {
+	// Check the accuracy percision before anything changes.
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
+
 	// Set the loss.
 	values := loss.getValues()
 	if m.OutputSize != int(values["size"]) {
@@ -124,9 +129,6 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 
 	// Set the accuracy.
 	m.AccuracyType = accuracyType
-	if accuracyPercision < 0 {
-		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
-	}
 	m.AccuracyPercision = accuracyPercision
 
 	return nil
-- 
2.43.0


From 28520c2be8013b657d62d45a2f6ada2c8c3d7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 21/28] fix: return errors from a model that is not finalized
 or does not fit its data

Fit, Backward, CalculateLoss and CalculateAccuracy panicked on a model without
a loss, with layers added after Finalize, or with labels for another number of
samples; a negative batch size skipped the training without an error.
---
 model.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/model.go b/model.go
index e031b6a..5ccd0d8 100644
--- a/model.go
+++ b/model.go
@@ -172,6 +172,14 @@ func (m *Model) Forward(X Matrix, training bool) ([]Matrix, error) {
 
 // Backward pass. Takes in outputs from the forward pass, along with the true values. Returns a list of gradients.
 func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
+	// Check that the model is complete and that the outputs are those of a forward pass.
+	if m.ModelSize == 0 || m.Loss == nil {
+		return []Gradients{}, errors.New("nn.Model: Model is not finalized.")
+	}
+	if len(outputs) != m.ModelSize + 1 {
+		return []Gradients{}, errors.New("nn.Model: Invalid number of layer outputs.")
+	}
+
 	// Create the list of gradients.
 	gradients := []Gradients{}
 
@@ -214,6 +222,17 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 
 // Fit the network. If batchSize is zero, the model will not use batching. If yVal is empty, the model will not use validation. If logEvery is zero, the model will not be verbose.
 func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
+	// Check that the model is complete and that the data can be split into batches.
+	if m.ModelSize == 0 || m.Loss == nil || len(m.Optimizers) != m.ModelSize {
+		return errors.New("nn.Model: Model is not finalized.")
+	}
+	if Y.Rows < 1 || X.Rows != Y.Rows {
+		return invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+	if batchSize < 0 {
+		return errors.New("nn.Model: Batch size cannot be less than zero.")
+	}
+
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
@@ -304,6 +323,10 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 
 // Calculate the average loss for the model, given X and Y.
 func (m *Model) CalculateLoss(X, Y Matrix) (float64, error) {
+	if m.Loss == nil {
+		return 0, errors.New("nn.Model: Model is not finalized.")
+	}
+
 	// Perform the forward pass.
 	outputs, err := m.Forward(X, false)
 	if err != nil {
@@ -327,6 +350,11 @@ func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
                 return 0, err
         }
 
+	// Check that there is a label for each output.
+	if output := outputs[m.ModelSize]; output.Rows != Y.Rows || output.Cols != Y.Cols {
+		return 0, invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// Determine which type of accuracy to calculate.
 	if m.AccuracyType == RegressionAccuracyType {
 		return RegressionAccuracy(outputs[m.ModelSize], Y, m.AccuracyPercision), nil
-- 
2.43.0


From 3a7c9093e9fc50db5df6c514475db4acf5e4e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 22/28] fix: do not save models with more layers than the
 format can count

The number of layers is one signed byte: a model of 128 layers was saved
without an error and could not be loaded again.
---
 model_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model_data.go b/model_data.go
index b291ad3..1830f75 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"math"
 	"os"
 )
 
@@ -51,6 +52,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the model size fits its byte.
+	if m.ModelSize < 0 || m.ModelSize > math.MaxInt8 || m.ModelSize != len(m.Layers) {
+		return errors.New("nn.SaveModel: Invalid model size.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From 4c7f989921642694c3681e85e47fcff71ca2b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 23/28] fix: return errors for corrupted lengths when loading a
 model

A negative key length panicked, and large layer sizes allocated memory for
values that the data does not have, up to ending the process.
---
 layer_data.go | 5 +++++
 model_data.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..3bb6b9b 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the buffer has all the values before making room for them.
+	if inputSize < 1 || outputSize < 1 || (int64(inputSize) + 1) * int64(outputSize) > int64(buf.Len() / 8) {
+		return SavedLayerData{}, invalidLayerDimensionsError(int(inputSize), int(outputSize))
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
diff --git a/model_data.go b/model_data.go
index 1830f75..ed7f860 100644
--- a/model_data.go
+++ b/model_data.go
@@ -266,6 +266,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid optimizer value. Check that the data is not corrupted.")
+		}
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From 4b5c6fec1e1b3777281e269657269f81478a8e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 24/28] fix: do not empty the file of an earlier model when a
 model cannot be saved

SaveFile created (and truncated) the file before it knew whether the model can
be serialized.
---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index ed7f860..dc12070 100644
--- a/model_data.go
+++ b/model_data.go
@@ -362,19 +362,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 12341ad938c3e73bca4f88b38d6edb6c4e53cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 25/28] fix: refuse negative counts when loading a model

---
 model_data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model_data.go b/model_data.go
index dc12070..977e20f 100644
--- a/model_data.go
+++ b/model_data.go
@@ -210,6 +210,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
+	if modelSize < 0 {
+		return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid model size. Check that the data is not corrupted.")
+	}
+
 	// Read the input and output sizes.
 	var inputSize, outputSize int32
         err = binary.Read(buf, binary.LittleEndian, &inputSize)
@@ -257,6 +261,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
+	if lenOptimizerValues < 0 {
+		return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid number of optimizer values. Check that the data is not corrupted.")
+	}
+
 	// Loop over all the values.
 	for i := 0; i < int(lenOptimizerValues); i++ {
 		// Read the key length.
-- 
2.43.0


From 209886ed3f0d57fdcffbed468be4f3e4f37b210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 26/28] fix: LoadFile reads the whole file

A single Read returns at most 1 GB; the rest of a larger model file was
silently taken to be zeros.
---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index 977e20f..a7fc99c 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"math"
 	"os"
 )
@@ -410,7 +411,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From 2adcdd61213a91efd9a098ed86f3d69f5f6cb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:08 +0000
Subject: [PATCH 27/28] fix: SetColumn with a row of the same matrix as values
 wrote values it had just overwritten

---
 matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix.go b/matrix.go
index b4694ff..7f70e70 100644
--- a/matrix.go
+++ b/matrix.go
@@ -186,6 +186,9 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 		return invalidSliceDimensionsError(len(values))
 	}
 
+	// The values can be a row of the same matrix, which the column crosses.
+	values = append([]float64(nil), values...)
+
 	// Loop over the rows and insert the column.
 	for i := 0; i < m.Rows; i++ {
 		m.M[i][col] = values[i]
-- 
2.43.0


From 04f8703b8d90249be455d0ec31923dfd814cf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:36 +0000
Subject: [PATCH 28/28] fix: BinaryCategoricalAccuracy and OutputBinaryValues
 overwrote the predictions they were given

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 2954cff..e4d6609 100644
--- a/misc.go
+++ b/misc.go
@@ -63,6 +63,9 @@ func RowMax(X Matrix) Matrix {
 
 // Return the output values for binary categorization.
 func OutputBinaryValues(X Matrix) Matrix {
+	// The given matrix, the outputs of a model for example, stays as it is.
+	X = copyMatrix(X)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0.5 {
-- 
2.43.0

