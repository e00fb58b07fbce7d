#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Matrix arithmetic is exact for every shape and leaves its operands alone",
  "For matrices of any shape, addition, subtraction, negation, adding/multiplying by/raising to a scalar, matrix product, transpose, axis sums and equality return the mathematically defined result, entry by entry, with the defined shape (up to floating-point rounding). Operands whose shapes do not fit give an error and no result. No operation changes its operands, and later changes to a result or an operand never show in the other.",
  ["inputs", "histories"], "every shape (rows x columns), every finite entry, every chain of operations in which results are reused as operands",
  "The tests multiply one 2x3 by one identity, and check single cells of one shape per operation; nothing varies the shape, chains operations or looks at the operands afterwards.",
  ["matrix.go"], [("entrywise loops over freshly allocated result", "matrix.go: Add, Sub, Neg, AddScalar, MulScalar, PowScalar, Dot, T, Sum, Equals")],
  [("matrix", "rows, columns and values of each live matrix", "matrix.go: Matrix")], ["return values", "values of every live matrix after the call"])

p("C02", "A matrix is a fixed-size grid: reads see the last write, bad accesses fail",
  "After any sequence of cell, row and column writes, a read of a cell, row or column returns the values most recently written there, and a write changes the addressed cells and nothing else (also when the same source values are used for several writes, are changed afterwards, or were read from the matrix itself). What a read has returned is not changed by further reads, nor by writes to other matrices. An access with an index outside the grid (negative or too large) or with a slice of the wrong length returns an error and changes nothing. Construction with a non-positive dimension, or from empty or ragged rows, is rejected with an error.",
  ["inputs", "histories"], "every shape, every sequence of reads and writes, valid and invalid",
  "The tests do four writes and reads on one 3x3 matrix and never make an invalid access.",
  ["matrix.go"], [("bounds checks and copying setters", "matrix.go: NewMatrix, NewMatrixFromSlice, Get, Set, GetRow, GetColumn, SetRow, SetColumn")],
  [("matrix", "values of each live matrix", "matrix.go: Matrix")], ["return values and errors", "values of every live matrix after the call"])

p("C03", "Every layer's forward pass computes its activation of XW+B",
  "For every layer kind, layer size, batch size, weights and finite inputs, the forward pass returns, row by row, the layer's activation (ReLU, identity, sigmoid, leaky ReLU with its slope, softmax) of input times weights plus bias; softmax rows are finite probabilities that sum to one even for huge inputs, and a dropout layer run without dropout is a ReLU layer. An input of the wrong width is rejected with an error. Inputs, weights and biases are left unchanged, and an output that was returned earlier does not change when the layer is used again.",
  ["inputs", "configurations", "histories"], "every layer kind x input size x output size x batch size x parameter values, over any sequence of passes",
  "The layer tests run one shape per kind and only log the result; they check no output value.",
  ["network.go", "activation.go", "matrix.go"], [("affine map followed by an in-place activation on a private matrix", "network.go: the Forward methods, ForwardNoDropout"), ("activation functions", "activation.go")],
  [("layer", "kind, sizes, weights, biases, slope", "network.go: layer structs")], ["returned matrices", "weights, biases and inputs after the call"])

p("C04", "Backward passes are the exact derivative of the latest forward pass",
  "For every non-dropout layer kind, size, batch and upstream gradient, the backward pass returns the exact derivatives with respect to weights, biases and inputs of the layer's most recent forward pass (the rectifier's derivative at 0 is 0, the leaky rectifier's is 1), whatever passes happened before and whatever the caller did to the returned output in between. Calling it again with the same arguments gives the same result. Inputs, upstream gradients, weights and biases are left unchanged.",
  ["inputs", "configurations", "histories"], "every layer kind x sizes x batch x values, over any history of forward and backward passes and caller-side changes of returned outputs",
  "The layer tests call Backward once per kind, on one shape, and check only that no error comes back; they passed while the sigmoid gradient was wrong in value and in shape.",
  ["network.go", "activation.go"], [("cached pre-activations/outputs of the last forward pass", "network.go: reluInputs, sigmoidInputs, outputs"), ("activation derivatives", "activation.go: RELUPrime, SigmoidPrime, LeakyRELUPrime; network.go: SoftmaxLayer.Backward")],
  [("cache", "what the last forward pass left for the backward pass", "network.go: layer structs")], ["returned gradients", "all argument matrices after the call"])

p("C05", "Misused layers answer with an error and stay usable",
  "Creating a layer with a non-positive size, a negative slope or a dropout rate outside [0,1] fails with an error; any other gives a layer whose weights are inputs x outputs and whose biases are one row of outputs. A backward pass whose input or upstream gradient has the wrong width, whose row counts differ from each other or (for layers with a nonlinear activation) from the latest forward pass, or that comes before any forward pass of such a layer (new, or just loaded), returns an error instead of crashing or returning gradients of the wrong shape. A rejected call changes no parameter and does not affect the results of later valid calls.",
  ["inputs", "histories", "fault_sequences"], "every layer kind, every sequence that mixes valid calls with calls of wrong width, wrong row count or wrong order",
  "No test passes a wrong shape to a layer or calls its methods out of order.",
  ["network.go", "layer_data.go"], [("dimension checks before the computation", "network.go: New*Layer, Forward, Backward, BackwardCrossEntropy")],
  [("cache", "rows of the last forward pass, or none", "network.go: layer structs")], ["errors", "parameters and later results"])

p("C06", "Dropout keeps or drops units, rescales survivors, and backpropagates likewise",
  "In a training pass every output of a dropout layer is either 0 or the ReLU value divided by (1 - rate); units are dropped independently of each other, of their row and of earlier passes, with the configured rate; a rate of 0 drops nothing and a rate of 1 drops everything (never NaN). The backward pass is the exact derivative of the most recent forward pass with the units that were really kept in it, with the same scaling; after a pass without dropout nothing counts as dropped. Inference passes of a model never drop.",
  ["inputs", "configurations", "histories"], "every rate in [0,1], layer and batch size, values, and every history of training, inference and backward passes",
  "The test runs one training pass and one backward pass with rate 0.1 and checks no value; the mask is random.",
  ["network.go", "binomial.go", "model.go"], [("binary mask drawn per pass and kept for the backward pass", "network.go: DropoutLayer.Forward, ForwardNoDropout, Backward"), ("Bernoulli draws", "binomial.go: Rand"), ("training flag", "model.go: Forward")],
  [("mask", "which units the last pass kept", "network.go: binaryMask")], ["outputs and gradients", "keep frequencies"])

p("C07", "Loss values are the documented means over the whole batch and stay finite",
  "For predictions and labels of any equal shape, the squared and absolute losses are the mean over all samples and outputs, the categorical cross-entropy (one-hot labels) is the mean over samples of minus the log of the probability of the true class, and the binary cross-entropy is the mean over all samples and outputs, where probabilities are held within [1e-7, 1-1e-7] so that 0 and 1 give finite values. Evaluating a loss changes neither predictions nor labels. Predictions or labels whose width is not the loss's size, or with different row counts, are rejected with an error, as is the creation of a loss with a non-positive size.",
  ["inputs"], "every loss kind, width, batch size, predictions and labels",
  "The loss tests log the value and compare nothing; MSE and MAE are only run on a single row, so looking at the first row only went unnoticed.",
  ["loss.go", "matrix.go"], [("sum over rows and columns with clipping", "loss.go: the Forward methods; matrix.go: Clip")],
  [], ["returned value", "argument matrices after the call"])

p("C08", "Loss gradients are the derivatives of the losses",
  "For predictions and labels of any equal shape, the gradient of the squared loss is 2(prediction-label)/width and that of the absolute loss sign(prediction-label)/width (each sample's own loss, not divided by the number of samples); the gradients of the categorical and binary cross-entropy are the derivatives of their mean over the batch, with probabilities held within [1e-7, 1-1e-7]. All are finite for every finite prediction, have the shape of the predictions, and change neither argument. Arguments of wrong width or differing row counts give an error.",
  ["inputs"], "every loss kind, width, batch size, predictions (including exactly 0, 1 and equal to the label) and labels",
  "The loss tests log the gradient and compare nothing; the absolute loss had a gradient that was always zero.",
  ["loss.go", "matrix.go"], [("entrywise derivative", "loss.go: the Backward methods")], [], ["returned matrix", "argument matrices after the call"])

p("C09", "SGD follows its update rule over every history",
  "Over any sequence of updates of a layer, SGD moves each weight and bias by minus the current learning rate times its gradient, where the current rate is rate/(1 + decay*t) for the t-th earlier successful update (the plain rate if decay is 0); with momentum it moves by velocity, where velocity := momentum*velocity - current rate*gradient, starting from 0. Gradients are not changed. Creation with a non-positive rate, negative decay or momentum, or an unknown optimizer code is rejected.",
  ["inputs", "configurations", "histories"], "every rate, decay, momentum, shape and gradient sequence of any length",
  "The test trains a network for 500 steps without decay or momentum and logs the loss; no parameter value is compared.",
  ["optimizers.go"], [("decayed rate, velocity matrices, iteration counter", "optimizers.go: SGDOptimizer.Update, NewOptimizerFromType")],
  [("t", "number of successful updates", "optimizers.go: iterations"), ("velocity", "momentum accumulators", "optimizers.go: weightMomentums, biasMomentums")], ["weights and biases after each update"])

p("C10", "Adam follows its update rule over every history",
  "Over any sequence of updates of a layer, Adam keeps m := beta1*m + (1-beta1)*g and v := beta2*v + (1-beta2)*g^2 from 0 for every weight and bias and, at the (t+1)-th successful update, subtracts rate_t * (m/(1-beta1^(t+1))) / (sqrt(v/(1-beta2^(t+1))) + epsilon), where rate_t = rate/(1 + decay*t). Gradients are not changed. Creation with a non-positive rate or negative decay is rejected.",
  ["inputs", "configurations", "histories"], "every rate, decay, epsilon, beta1, beta2, shape and gradient sequence of any length",
  "The test trains for 500 steps without decay and logs the loss; it passed while the second moments were corrected with the wrong beta.",
  ["optimizers.go"], [("moment matrices, bias correction, iteration counter", "optimizers.go: AdamOptimizer.Update, NewOptimizerFromType")],
  [("t", "number of successful updates", "optimizers.go: iterations"), ("m, v", "moment accumulators", "optimizers.go: *Momentums, *Cache")], ["weights and biases after each update"])

p("C11", "A rejected optimizer update changes nothing; optimizers share nothing",
  "An update whose weight or bias gradients do not have the shapes of the parameters, or whose parameters do not have the shapes of the momentums or caches the optimizer keeps, returns an error and changes neither weights, biases nor the optimizer's history: later valid updates behave as if the rejected one had never been made. Optimizer objects, including the per-layer ones of a model, are independent: updating with one never influences what another does.",
  ["inputs", "histories", "fault_sequences"], "every optimizer kind and configuration, every interleaving of valid and rejected updates on several optimizers",
  "No test makes an invalid update or interleaves optimizers and compares values.",
  ["optimizers.go", "model.go"], [("shape check before any state change", "optimizers.go: checkUpdateDimensions"), ("one optimizer object per layer", "model.go: Finalize")],
  [("optimizer state", "iterations, momentums, caches", "optimizers.go")], ["errors", "weights and biases after later updates"])

p("C12", "A model only accepts fitting parts, and a rejected part leaves it unchanged",
  "A layer is accepted as the next layer of a model exactly when it is the first one or its input size equals the current output size; finalizing is accepted exactly when the loss size equals the model's output size and the accuracy precision is not negative. Layers keep their order, input and output size are those of the first and last layer, and finalizing gives every layer a fresh optimizer of the requested kind with the requested hyperparameters. A rejected call leaves sizes, layers, loss, metric and optimizers (with their histories) as they were.",
  ["inputs", "histories", "configurations"], "every sequence of layer additions and finalizations with fitting and non-fitting sizes, on a model of any depth",
  "The tests only assemble fitting models and ignore the returned errors.",
  ["model.go", "optimizers.go"], [("size checks", "model.go: AddLayer, Finalize"), ("optimizer factory", "optimizers.go: NewOptimizerFromType")],
  [("model", "layers, sizes, loss, metric, optimizers", "model.go: Model")], ["errors", "public fields, predictions and later training"])

p("C13", "Model passes, predictions, loss and accuracy compose the layers",
  "A model's forward pass returns the input followed by the output of every layer applied in order to the previous output (dropout active only when training); its loss is its loss function, its accuracy its metric, and its prediction the decoded output (raw for regression, index of the largest output for categorical, 0/1 by the threshold 0.5 for binary), of the inference pass over exactly the given data. These calls change neither the given data nor any parameter, and repeated calls give the same answer. Data of the wrong width, labels that do not match, an unknown metric, or a model without a loss give an error.",
  ["inputs", "configurations", "histories"], "every model (layer kinds, depth, sizes), loss and metric, data of any number of rows",
  "The tests make these calls on one fixed architecture and check only that no error comes back.",
  ["model.go", "misc.go", "accuracy.go"], [("loop over the layers", "model.go: Forward"), ("metric dispatch", "model.go: CalculateLoss, CalculateAccuracy, Predict")],
  [("model", "ordered layers", "model.go: Model")], ["returned matrices and numbers", "data and parameters after the call"])

p("C14", "The model's backward pass is the chain rule through all layers",
  "Given the outputs of a training pass and labels, the model's backward pass returns one weight/bias gradient pair per layer, the last layer's first, each equal to what the chain rule gives from the loss gradient through the layers' backward passes. When the last layer is softmax and the loss categorical cross-entropy with one-hot labels, the result equals that of the chain rule through both, which is (probability - label)/samples at the softmax inputs; softmax elsewhere, or with another loss, is not shortcut. Outputs, labels and parameters are unchanged, and a wrong number of outputs, non-fitting labels or a model without loss give an error.",
  ["inputs", "configurations"], "every model (layer kinds, depth, sizes, loss), batch and one-hot or real labels",
  "The tests run one backward pass of a fixed architecture and drop the result.",
  ["model.go", "network.go", "loss.go"], [("reverse loop over the layers", "model.go: Backward"), ("fused softmax cross-entropy", "network.go: BackwardCrossEntropy")],
  [("outputs", "what the forward pass returned", "model.go")], ["returned gradients"])

p("C15", "Training visits every sample once per epoch, in order, batch by batch",
  "Fitting for E epochs with batch size b on n samples performs, per epoch, ceil(n/b) updates on consecutive batches of b samples in the given order (the last one smaller if b does not divide n; one batch of all samples if b is 0 or at least n), and each update applies to every layer, through that layer's own optimizer, the gradients of that batch at the parameters left by the previous update. Optimizer histories carry over between consecutive fits, so fitting E1 and then E2 epochs equals fitting E1+E2. Zero epochs change nothing.",
  ["inputs", "histories", "configurations"], "every number of samples, batch size, epochs, model, optimizer, and every split of a training into consecutive fits",
  "The tests fit with one batch size that equals (or is 0 for) the number of samples and look only at the error.",
  ["model.go", "optimizers.go"], [("epoch and batch loops", "model.go: Fit")],
  [("parameters", "weights and biases after each batch", "model.go: Layers"), ("optimizer histories", "per-layer optimizer state", "model.go: Optimizers")], ["weights and biases after Fit"])

p("C16", "Observing a model never changes what it learns, and data is never modified",
  "The parameters that training produces do not depend on progress logging, on validation data, or on predictions, loss, accuracy, forward passes or saves made before, between or after fits. No training or evaluation call modifies the training, validation or evaluation data, whatever the layers, loss and metric.",
  ["histories", "configurations"], "every model without active dropout, every interleaving of fits with observation calls, every logging interval and validation set",
  "No test compares two trainings or looks at the data after a call; a sigmoid first layer used to overwrite the training data.",
  ["model.go", "network.go", "accuracy.go", "loss.go"], [("evaluation passes between batches on separate matrices", "model.go: Fit, CalculateLoss, CalculateAccuracy, Predict"), ("private caches", "network.go")],
  [("parameters", "weights and biases", "model.go"), ("data", "the caller's matrices", "matrix.go")], ["parameters after training", "caller's matrices after every call"])

p("C17", "Training that cannot run is refused without touching the model",
  "Fitting a model that is not finalized (or got layers after it was), with inputs or labels of the wrong width, with different numbers of inputs and labels, with no samples, or with a negative batch size returns an error instead of crashing or silently doing nothing, and leaves all parameters and optimizer histories unchanged: a later valid fit behaves as if the refused one had not been tried.",
  ["inputs", "histories", "fault_sequences"], "every model and stage of its assembly, every kind of unusable argument, at any point of a training history",
  "No test makes an invalid fit.",
  ["model.go"], [("argument checks before the loop, error returns before the update", "model.go: Fit, Forward, Backward; loss.go checks")],
  [("model", "assembly stage, parameters, optimizer histories", "model.go")], ["errors", "parameters after later fits"])

p("C18", "Progress reports come when asked and state the model's true loss and accuracy",
  "With a logging interval k > 0, fitting writes one info line for each epoch whose number (from 0) is a multiple of k, in order, with that epoch's number and the loss and accuracy over the whole training data with the parameters at the end of that epoch (whatever they are, also when training diverges), followed, when validation data is given, by one line with those over the validation data. With interval 0 nothing is written.",
  ["inputs", "histories"], "every number of epochs, interval, batch size, with and without validation data, over consecutive fits",
  "The tests write such lines to a log file and never read it.",
  ["model.go", "nn.go"], [("logging after the batch loop of an epoch", "model.go: Fit")],
  [("log", "lines written so far", "nn.go: InfoLogger")], ["log output"])

p("C19", "A loaded model or layer is the saved one",
  "For every model or layer of any kind, depth and size, saving and loading (through a buffer or a file, any number of times) yields one with the same sizes, layer kinds and order, bit-identical weights, biases, slopes and dropout rates, loss, metric with its precision, optimizer kind and hyperparameters; it predicts identically, and training it equals training the original with fresh optimizer histories. Saving leaves the model as it was, and the loaded model shares nothing with the original.",
  ["inputs", "configurations", "histories"], "every model (kinds, depth up to the format's 127 layers, sizes, values including negative zero, subnormal, infinite), every sequence of train/save/load",
  "The tests save and load one architecture and compute a loss that is not compared with the original's.",
  ["model_data.go", "layer_data.go"], [("symmetric serialization and parsing", "model_data.go: Serialize, loadModelBuffer, LoadModel; layer_data.go: SerializeLayer, loadLayerBuffer, LoadLayer"), ("rebuild through AddLayer and Finalize", "model_data.go: LoadModel")],
  [("saved bytes", "the encoded model", "model_data.go")], ["public fields, predictions and later training of the loaded model"])

p("C20", "Saved data has the documented format and is read exactly to its end",
  "The bytes of a saved model or layer follow the documented layout: magic, version, counts and sizes as little-endian integers of the documented widths, precision, optimizer values as length-prefixed keys with float values, then each layer's magic, kind, sizes, slope, dropout, weights row by row and biases. Hand-written data of that layout loads, whatever the order of the optimizer values and whatever the (5-byte) version. Loading consumes exactly the bytes of one model or layer, so several can be stored one after the other in one buffer.",
  ["inputs", "configurations"], "every model and layer, every order of optimizer values, every sequence of models and layers in one stream",
  "The tests only load what the same build has just written and never look at the bytes, so any symmetric change of the format passes.",
  ["model_data.go", "layer_data.go", "ModelData.md", "LayerData.md"], [("binary.Write/Read in document order", "model_data.go, layer_data.go")],
  [("buffer", "bytes written and not yet read", "bytes.Buffer")], ["bytes", "loaded models and remaining bytes"])

p("C21", "Damaged model data is refused, never crashes and never loads as something else",
  "Loading a truncated model, layer or model file (cut at any byte), or one with a wrong magic, an unknown loss, optimizer or layer code, a non-positive layer size, sizes larger than the data, layers that do not chain, a loss that does not fit or a negative length returns an error. Arbitrary bytes never crash the loader, make it hang or use memory out of proportion to the data. Whatever is accepted is exactly what the bytes describe.",
  ["inputs", "crash_points", "fault_sequences"], "every saved model or layer, every cut position, every altered byte, arbitrary byte strings",
  "The tests never load damaged data.",
  ["model_data.go", "layer_data.go"], [("magic checks, read errors, size checks against the remaining data", "model_data.go: loadModelBuffer, LoadModel; layer_data.go: loadLayerBuffer, LoadLayer")],
  [("buffer", "the bytes to load", "bytes.Buffer")], ["errors", "returned model"])

p("C22", "Saving to a file is all or error, and a hopeless save spares the old file",
  "Saving a model to a file either returns no error, and then the file holds exactly that model's data (nothing left over from earlier, longer contents) and loads as that model, or returns an error: an unwritable path, a full device or a model that the format cannot represent is always reported. A model that cannot be represented (more than 127 layers, parameters that do not fit the sizes) leaves an existing file untouched. Loading from a missing or unreadable path returns an error. Neither leaves the file open.",
  ["histories", "fault_sequences", "configurations"], "every sequence of saves and loads over several paths, models of any size, unwritable paths and full devices",
  "The tests save once to a fresh file and load it back.",
  ["model_data.go"], [("serialize to memory first, then create and write the file", "model_data.go: SaveFile, LoadFile, Serialize")],
  [("files", "contents of each path", "file system")], ["errors", "file contents", "loaded models"])

p("C23", "Accuracy metrics count exactly the correct predictions",
  "For predictions and labels of any equal shape, regression accuracy is the fraction of entries with |prediction - label| strictly below the precision, categorical accuracy the fraction of rows whose largest prediction (the first, if several are equal) is at the labelled class, and binary accuracy the fraction of entries whose prediction, taken as 1 from 0.5 on and 0 below, equals the label. The index of the largest entry is right for rows of any sign, in a matrix whose cells are its own. Metrics, indices and binary decisions leave the predictions and labels they are computed from as they are.",
  ["inputs"], "every shape, predictions (ties, negatives, values at the thresholds) and labels",
  "The tests check one small matrix per metric, with positive entries and without ties or threshold values.",
  ["accuracy.go", "misc.go"], [("counting loops", "accuracy.go"), ("argmax and threshold", "misc.go: RowMax, OutputBinaryValues")], [], ["returned values"])

p("C24", "One-hot encoding marks exactly the given class and refuses impossible ones",
  "Encoding class indices into k columns gives a matrix with one row per sample that is 1 at the sample's class and 0 elsewhere, so that the index of the largest entry gives the classes back; the input is unchanged, and every cell of the result is one of its own. A non-positive k or a class index that is negative or at least k gives an error.",
  ["inputs"], "every number of samples, classes and class indices, valid and invalid",
  "The test encodes four classes and looks at a single cell.",
  ["misc.go"], [("range check and indexed write", "misc.go: SparseToOneHot")], [], ["returned matrix and error"])

p("C25", "Shuffling permutes samples and labels together, and can reach every order",
  "Shuffling a dataset returns the same rows with the same labels in a new order: input row i stays paired with its label row, every pair occurs exactly as often as before, and no value is changed. Every permutation is possible, and repeated shuffles give different orders.",
  ["inputs", "histories"], "every number of samples, widths of inputs and labels, duplicates, and sequence of shuffles",
  "The test shuffles once and checks nothing.",
  ["misc.go"], [("one swap function applied to both matrices", "misc.go: ShuffleDataset")], [("dataset", "rows of inputs and labels", "matrix.go")], ["returned matrices"])

p("C26", "Initialization draws fresh, independent, He-scaled weights and keeps biases",
  "Initializing a layer of any kind and size replaces every weight by an independent draw from a normal distribution with mean 0 and variance 2/inputs; two layers, or two initializations of one, get different weights. Biases and sizes are untouched (biases of a new layer are 0), and initializing a model initializes each of its layers.",
  ["inputs", "configurations", "histories"], "every layer kind and size, every sequence of initializations",
  "The tests initialize layers and never look at the weights.",
  ["network.go", "model.go"], [("scaled normal draws from a fresh generator", "network.go: the Init methods"), ("loop over the layers", "model.go: InitLayers")], [("weights", "values after Init", "network.go")], ["weights and biases after Init"])

p("C27", "Objects do not interfere, not even when used from concurrent goroutines",
  "Matrices, layers, losses, optimizers and models that do not share data are independent: any interleaving of operations on several of them, in one goroutine or in concurrent ones, gives each the results it would have had alone, without data races.",
  ["schedules", "histories"], "every interleaving and concurrent schedule of operations on separate objects",
  "The tests use one object at a time, in one goroutine.",
  ["model.go", "network.go", "optimizers.go", "matrix.go", "loss.go"], [("all state lives in the objects; package-level generators are locked", "network.go, optimizers.go, binomial.go")], [("objects", "state of each object", "all")], ["results per object under interleaving", "race detector"])

p("C28", "Messages go where logging was configured, and never crash the library",
  "After logging is set up with a file, info, warning and error messages are appended to that file in order, each with its level's prefix, without touching what the file held; set up verbosely without a file they go to standard output, otherwise nowhere; a later setup replaces the earlier one. A file that cannot be opened gives an error and leaves the previous setup in force. Before any setup, library calls that have something to report work and stay silent.",
  ["histories", "configurations", "fault_sequences"], "every sequence of logging setups (file, verbose, quiet, failing) and reporting library calls, including none before",
  "The tests set up a log file and never read it; calls without a setup crashed.",
  ["nn.go", "model.go", "model_data.go"], [("loggers replaced by InitLogger, discarding ones by default", "nn.go")], [("sink", "where messages go", "nn.go: loggers")], ["file contents, standard output"])

p("C29", "Activation functions are right on their own, for every matrix",
  "Applied to a matrix of any shape with finite entries, the exported activation functions give max(z, 0), the logistic function, z or slope times z for negative z, and for every row its softmax (probabilities that sum to one, also for rows far from 0); the gradient functions give the incoming gradient times the derivative at the pre-activations (the rectifier's derivative at 0 is 0, the leaky rectifier's is 1); clipping confines entries to [1e-7, 1-1e-7] and keeps those inside. The pre-activations given to the rectifiers' gradient functions, the gradients given to the sigmoid's, and the matrix given to clipping are not changed.",
  ["inputs"], "every function x shape x finite entries (zeros, subnormal and huge ones) x slope",
  "No test calls these functions; through layers they are only run on one shape and their values are not compared.",
  ["activation.go", "matrix.go"], [("entrywise loops", "activation.go: RELU, RELUPrime, Sigmoid, SigmoidPrime, LeakyRELU, LeakyRELUPrime; matrix.go: Clip"), ("row-wise normalization", "activation.go: Softmax")],
  [], ["returned matrices", "argument matrices after the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, s)
print(len(P))
