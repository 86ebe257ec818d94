#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the entries stay consistent)."""
import json, os
H = "include/cnn_from_scratch/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

MM, SM, SMT = H+"Matrix/MatrixMath.h", H+"Matrix/SimpleMatrix.h", "src/SimpleMatrix.tpp"
SV, SVT, MI, DM, MB = H+"Matrix/SubMatrixView.h", "src/SubMatrixView.tpp", H+"Matrix/MatrixIterator.h", H+"Matrix/dim.h", H+"Matrix/MatrixBase.h"
MD, MDT, SER = H+"ModelDescription.h", "src/ModelDescription.tpp", H+"Serialization.h"
K, KH = "src/Layers/Kernel.cpp", H+"Layers/Kernel.h"
CL, CLH = "src/Layers/ConnectedLayer.cpp", H+"Layers/ConnectedLayer.h"
AC, ACH = "src/Layers/Activation.cpp", H+"Layers/Activation.h"
PO, POH = "src/Layers/Pooling.cpp", H+"Layers/Pooling.h"
SX, SXH = "src/Layers/Softmax.cpp", H+"Layers/Softmax.h"
MN, MNH, MAIN = "src/MNISTReader.cpp", H+"MNISTReader.h", "src/main.cpp"
IU = H+"imageUtil.h"

prop("C01", "Operations on incompatible shapes are refused before anything is changed",
 "Combining matrix-like operands whose shapes do not fit (elementwise and compound operators, matrix product, dot product, assignment to a view, setting entries from a list of the wrong length, reshaping to a different element count, quarter-turn rotation of a non-square matrix) always raises the documented matrix exception. No element of any operand has been written when it is raised, and operands whose shapes do fit are never refused.",
 ["inputs"], "every pair of operand shapes, for every operator and operand kind (matrix, view, lazy expression)",
 "The suite has three mismatch cases (one bad product, two wrong-length lists); most operators' guards are never triggered.",
 [MM, SMT, SVT], [("checkSize and the inline shape tests", MM), ("SimpleMatrix assignment/reshape guards", SMT), ("view assignment guard", SVT)],
 observe=["exception type", "operand contents after the exception"])
prop("C02", "A matrix always stores exactly rows x columns x depth elements",
 "After every constructor, conversion, copy, move, assignment, resize, reshape, list assignment or load, the number of elements a matrix stores equals the product of the three sizes it reports, and its reported shape is the one requested or taken from the source.",
 ["inputs", "histories"], "every sequence of public matrix operations from every starting shape",
 "Tests construct a dozen fixed shapes; shape/storage agreement after an arbitrary history is never asserted.",
 [SM, SMT, MB], [("every writer of dim_ / values_", SMT)], state=[("dim_", "reported shape", MB), ("values_", "element storage", SM)], observe=["size()", "dim()"])
prop("C03", "All ways of addressing an element of a matrix agree",
 "Three-coordinate indexing, index-triple indexing, flat (column-major) indexing, the reported flat index, iteration order and the list order of the list constructor and setEntries (row by row, layer by layer; list assignment with = takes flat order) all refer to the same element for the same position, and distinct positions inside the shape are distinct elements.",
 ["inputs"], "every shape and every position within it",
 "Two fixed positions are compared; square or single-layer shapes hide a swapped stride.",
 [SMT, SM, MI, DM], [("SimpleMatrix::getIndex and the call operators", SMT), ("MatrixIterator scalar index", MI), ("setEntries order", SMT)], observe=["operator()", "operator[]", "getIndex", "iterators"])
prop("C04", "A view only ever exposes the window of the matrix it was asked for",
 "Creating a view (or a view of a view, or a slice) whose window is not fully inside the matrix or outer view it is taken from, including negative starts, raises a size exception; otherwise position p of the view is element start+p of the matrix, for reads, writes and checked access, and checked access outside the window raises an exception.",
 ["inputs"], "every window (start, size), including negative and nested ones, and every position",
 "Tests build five in-range windows; no out-of-range window is ever requested.",
 [SV, SVT, SMT], [("SubMatrixView constructors", SV), ("SubMatrixView indexing", SVT), ("slice/slices/subMatView/subMatCopy", SMT)], observe=["exceptions", "elements seen and changed through the view"])
prop("C05", "Iteration visits every element of any matrix-like object exactly once",
 "Iterating a matrix, a view or a lazy expression from begin to end visits each position inside its shape exactly once in column-major order, reporting the position it is at, and visits nothing when any size is zero; post- and pre-increment differ only in the value returned and the distance between iterators counts the steps between them.",
 ["inputs"], "every shape, including shapes with a zero size",
 "Tests iterate a few non-empty fixed shapes.",
 [MI, DM, SM, SV, MM], [("DimIterator::operator++", DM), ("MatrixIterator", MI), ("begin()/end() of each matrix-like class", SM)], observe=["sequence of positions and elements"])
prop("C06", "A const matrix cannot be modified through anything it hands out",
 "No element access, iterator, view or slice obtained from a const matrix, and no element access or iterator of a const view, allows its elements to be assigned; programs that try do not compile. The same operations on non-const objects do give writable access.",
 ["programs"], "every program that uses the public matrix API",
 "A test cannot contain a program that must not compile.",
 [SM, SV, MI, SVT, SMT], [("const overloads returning const references / const views", SM), ("iterator reference types", MI)], observe=["whether a program compiles"])
prop("C07", "Lazy expressions never refer to operands that no longer exist",
 "An expression built by any matrix operator or function keeps its own copy of every temporary operand and of every scalar or function it was given, refers to (never copies out of sync with) named operands, and is itself handed out by value; evaluating it later in the same scope is always valid. (A view is a reference: a view of a temporary matrix is outside this property.)",
 ["programs", "inputs"], "every nesting of operators over named and temporary operands, evaluated at any later point in the operands' scope",
 "Dangling references usually still read the old bytes, so the assertions pass by luck; the test binaries are not compiled with a sanitizer.",
 [MM], [("MatrixStorageType and the operand members", MM), ("by-value captures and by-value returns", MM)], observe=["value of a stored expression"])
prop("C08", "Elementwise operators and index transforms compute what they denote",
 "For every position, a matrix-matrix, matrix-scalar, scalar-matrix or compound operator yields exactly that operator applied to the corresponding elements in the written order, abs/exp/apply yield the function of the element, transpose swaps the first two coordinates (and sizes) and rotation by n quarter turns moves elements accordingly; the result has the corresponding shape.",
 ["inputs"], "every operator, operand order, shape and position",
 "Only + - * / and += -= with symmetric operands are sampled; no comparison, scalar-left or rotation case is tested.",
 [MM], [("operator macros and OperationResult classes", MM), ("transpose, rotate, abs, exp, apply, modify", MM)], observe=["elements and shape of the result"])
prop("C09", "Assigning an expression uses the operands' values from before the assignment",
 "Assigning any expression to a whole matrix leaves the matrix equal to the value and shape the expression had before the assignment, even when the expression mentions that matrix. (Assignment to a view that overlaps its source and compound assignment from a transposed self are outside this property.)",
 ["inputs", "programs"], "every expression, including ones that read the destination at other positions or with another shape",
 "No test assigns an expression that reads its own destination.",
 [SMT, SM], [("SimpleMatrix assignment from matrix-like", SMT)], observe=["destination after assignment"])
prop("C10", "Matrix product, dot product and convolution follow their definitions",
 "For all admissible shapes, the product's (i,j,k) element is the sum over all inner positions of left times right, the dot product is the full sum of pairwise products without loss of fractional parts, and convolution with a given stride yields for every output position the full sum of window times filter, with one output position for each placement of the filter inside the input.",
 ["inputs"], "every admissible shape, stride, element type and position",
 "Four integer-valued products are sampled; dot is never called and stride is always one.",
 [MM], [("matrixMultiply, dot, convolve", MM)], observe=["elements and shape of the result"])
prop("C11", "Reductions summarise every element and return the right position",
 "sum, mean, max, min, l2 norm and the positions of the extreme elements take every element of the matrix, view or expression into account, in the element type's own arithmetic (so fractional parts and sign are kept for every type that has them), return the first extreme position in iteration order, and equality of matrices is true exactly when shapes and all elements (within the tolerance) agree.",
 ["inputs"], "every shape, element type and content",
 "The tests use equality only between matrices that should be equal, and never call sum, mean, max or min directly.",
 [MM, SMT], [("reduction functions and matrixEqual", MM), ("minIndex/maxIndex", SMT)], observe=["returned values"])
prop("C12", "No object is readable in an indeterminate state",
 "Every coordinate of a size or position object is determined by the arguments it was built from (unspecified ones are zero), comparison of such objects depends only on their coordinates, and every scalar field of layers, results, readers and hyperparameters has a definite value as soon as the object exists.",
 ["inputs", "programs"], "every way of constructing the library's objects",
 "Indeterminate bytes are usually zero in a fresh test process.",
 [DM, MD, SXH, MNH, ACH, KH, POH, CLH], [("Dim constructors", DM), ("in-class initialisers and constructor initialiser lists", MD)], observe=["dim equality", "field values after construction"])
prop("C13", "The convolution layer's output is the bias plus the filters' correlations",
 "For every input whose depth matches and which is at least as large as the filter, output (x, y, f) equals bias f plus the sum over all channels and filter positions of input times the weights of filter f, with one output per placement of the filter at the layer's stride; every output element is produced by this formula and the parameters are not changed.",
 ["inputs"], "every input size (also non-square), channel count, filter count, filter size and stride",
 "Three 4x4 cases with a 3x3 filter at stride one; never more than one filter and more than one channel at once.",
 [K, KH, MM], [("Kernel::propagateForward, outputSize", K), ("convolve", MM)], observe=["returned matrix"])
prop("C14", "The convolution layer's gradients are the derivatives of its output",
 "Given an output gradient G of the shape the layer produced, the weight, bias and input gradients equal the exact derivatives of the sum of G times output with respect to weights, biases and input, for every position; a backward step stores the weight and bias gradients under the sample's own batch index and returns the input gradient, or an empty matrix for the first layer.",
 ["inputs"], "every input size (also non-square), channel and filter count, stride and gradient",
 "One single-channel single-filter 3x3 case; the bias-gradient test asserts nothing.",
 [K, KH, MM], [("Kernel::getdLdW/getdLdX/getdLdB/propagateBackward/padInput", K), ("rotate", MM)], observe=["returned gradients", "parameters after the following batch update"])
prop("C15", "The fully connected layer computes W*flatten(x)+b and its exact gradients",
 "For every input with the expected element count the output is weights times the flattened input plus bias; the gradients it stores under the sample's batch index and returns are the outer product of output gradient and flattened input, the output gradient itself, and the transposed weights times the output gradient in the input's original shape, also for a layer restored from a file; the first layer returns an empty matrix.",
 ["inputs", "histories"], "every input shape, output count and gradient, before and after loading",
 "No test exercises this layer.",
 [CL, CLH], [("ConnectedLayer::propagateForward, getdLdW/X/B, propagateBackward, checkSize", CL)], observe=["outputs", "gradients", "shape of the returned gradient"])
prop("C16", "Each activation applies its function and back-propagates its true derivative",
 "For each supported activation kind the forward pass applies that function to every element and the backward pass multiplies the incoming gradient by the derivative of that same function at the value that was fed into the forward pass; name and kind conversions are inverse to each other, and unknown names or kinds are refused.",
 ["inputs", "configurations"], "every activation kind, input and gradient",
 "The tests call the gradient helper directly with inputs; the backward pass that training uses is never called.",
 [AC, ACH], [("function and gradient tables", AC), ("Activation::propagateForward/propagateBackward", AC), ("toString/fromString", ACH)], observe=["propagateForward", "propagateBackward"])
prop("C17", "Pooling reduces each window and routes gradients back to where values came from",
 "For each channel and window placement at the stride, max/min pooling outputs the extreme element and the backward pass adds that output's gradient to exactly that element's position recorded for the same sample; average pooling outputs the window mean and spreads the gradient equally over the window; all other input gradients are zero and every complete window inside the input is used.",
 ["inputs"], "every input size, window, stride, kind, channel count and batch index",
 "Three forward cases on 4x4 inputs with square windows; the backward pass is never called.",
 [PO, POH], [("Pooling::outputSize/propagateForward/getdLdX", PO)], state=[("affected_indices_", "winner position per output, per batch slot", POH)], observe=["outputs", "returned gradients"])
prop("C18", "The output layer yields softmax and the cross-entropy gradient of its own sample",
 "The output is exp(x_i - max)/sum of the same over all inputs; the backward pass returns that sample's output minus one at the true label assigned for that same batch index, refuses to run before a label was assigned, and refuses labels outside the label set.",
 ["inputs", "schedules"], "every input vector, label and batch index, and every interleaving of samples of a batch",
 "No test exercises this layer.",
 [SX, SXH, MDT], [("Softmax::softMax, getdLdX, assignTrueLabel, propagateBackward", SX)], state=[("true label", "label of the sample being back-propagated", SXH)], observe=["returned probabilities and gradient"])
prop("C19", "Prediction, confidence and loss describe the sample that was evaluated",
 "After a forward pass the predicted label index is the position of the largest output and the confidence is that output; the loss assigned for a true label is max(0, -log2(p + 1e-5)) of the probability at that label's position in the label list; a label that is not in the list is refused with an exception before any output is read.",
 ["inputs"], "every output vector, label list and label",
 "No test runs a complete model or assigns a loss.",
 [MDT, MD], [("ModelDescription::forwardPropagation, assignLoss, lossFcn", MDT)], observe=["result fields", "exceptions"])
prop("C20", "A batch update applies exactly the mean of that batch's gradients, once",
 "Updating a layer subtracts learning rate times the average of the gradients stored by the samples of the current batch from weights and biases; a batch slot that received no sample in this batch contributes nothing and does not count in the average, no gradient is ever applied twice, and an update with no gradients changes nothing.",
 ["inputs", "histories"], "every batch size, data set size (also not a multiple of it), learning rate and sequence of batches",
 "No test runs a batch update; the last, partly filled batch of an epoch is the common case in training.",
 [K, CL, KH, CLH, MDT], [("applyBatch, setBatchSize", K), ("applyBatch, setBatchSize", CL)], state=[("weight_gradients_/bias_gradients_", "per-sample gradients of the current batch", KH)], observe=["weights and biases after applyBatch"])
prop("C21", "Forward and backward passes chain every layer exactly once, in order",
 "A forward pass feeds the input through all layers in the order they were added, with the caller's batch index, and records the input and every layer's output; a backward pass visits all layers once in reverse order, giving each its own recorded input and output, the gradient returned by the layer after it, the caller's batch index, and the first-layer flag only for the first layer.",
 ["inputs", "configurations"], "every model architecture, input and batch index",
 "No test propagates through more than one layer.",
 [MDT, MD], [("forwardPropagation, backwardsPropagation", MDT), ("addKernel/addPooling/addConnectedLayer/addActivation/setOutputLabels", MDT)], observe=["recorded layer inputs", "calls each layer receives"])
prop("C22", "Samples processed in parallel never race on shared state",
 "While worker threads train or validate a model, everything they share is either only read, atomic, accessed under one common lock, or partitioned by the sample's own batch slot; the data source is only touched under the lock, and availability is tested in the same critical section as the fetch.",
 ["schedules"], "every thread count and interleaving of workers",
 "No test starts a thread; races need particular interleavings.",
 [MDT, CL, PO, SX, K, AC, MAIN], [("data mutex in runEpoch and validate", MDT), ("per-batch-slot storage in the layers", PO), ("initialisation of the fully connected layer", CL)], observe=["parameters, gradients and results after training"])
prop("C23", "An epoch covers every batch slot once and updates only between batches",
 "For any thread count and batch size of at least one, each batch slot is handled by exactly one worker, enough batches are run to consume the whole data source, all workers have finished before the update is applied to every layer exactly once per batch with the configured learning rate, correct predictions are each counted once, and the data source is rewound after each epoch.",
 ["inputs", "schedules", "configurations"], "every batch size, thread count, data set size and epoch count",
 "No test trains a model.",
 [MDT], [("work partition and join in runEpoch", MDT), ("train loop", MDT)], observe=["samples consumed", "updates applied", "reported accuracy"])
prop("C24", "Layers refuse inputs they cannot process before doing any work",
 "A convolution input of the wrong depth or smaller than the filter, a pooling input smaller than the window, a fully connected input of the wrong element count and an output-layer input that is not a vector of label-count elements are all refused with the layer exception before any layer state is changed, and every acceptable input is accepted.",
 ["inputs"], "every input shape for every layer configuration",
 "No test feeds a layer an unacceptable input.",
 [K, PO, CL, SX], [("checkSize and its callers", K), ("checkSize", PO), ("checkSize", CL), ("checkSize", SX)], observe=["exceptions", "layer state"])
prop("C25", "Loading what a layer saved restores that layer's behaviour",
 "For every layer kind and configuration, reading back the text the layer wrote restores every parameter that influences its behaviour (sizes, stride, kind, counts, weights, biases and anything derived from them), each from the value that was written for it, and consumes exactly what was written; weights are restored to the printed precision.",
 ["inputs", "configurations"], "every layer kind, configuration, and parameter shape",
 "No test saves or loads anything.",
 [K, CL, AC, PO, SX, SER, SMT], [("serialize/deserialize of each layer", K), ("SimpleMatrix::serialize/deserialize", SMT), ("place/expect", SER)], observe=["layer behaviour after a round trip"])
prop("C26", "A loaded model has the saved model's layers and labels, in order",
 "Saving a model and loading it into an empty one yields the same number of layers, of the same kinds, in the same order, each read by the matching reader, and the same output labels in the same order with the same output function (labels contain no line breaks).",
 ["configurations", "inputs"], "every model architecture buildable with the public API and every label list without embedded line breaks",
 "No test saves or loads a model.",
 [MDT, MD, SER], [("saveModel/loadModel", MDT), ("section tags written by each layer", K)], observe=["layers and labels after loadModel"])
prop("C27", "Saving and loading report failure instead of claiming success",
 "Saving returns true only if the file was opened and everything was written to it; loading returns true only if the file was opened and every section was read completely: a missing file, a wrong tag, an unreadable number, a truncated matrix or an unknown kind name leads to false or an exception, never to silently accepted defaults. (The dashes, the layer numbers in separator lines and the size line of the output section carry no data.)",
 ["fault_sequences", "inputs"], "every I/O failure point and every malformed or truncated file",
 "No test performs file I/O.",
 [MDT, SER, SMT, K, CL, AC, PO], [("stream state checks", MDT), ("expect", SER), ("deserialize return values", SMT)], observe=["return value", "exceptions"])
prop("C28", "The MNIST reader returns the requested image and label or fails",
 "The n-th image and label returned are those stored at index n in the two files (pixel rows in order, each value mapped to (v-128)/255), sequential reading advances by one after each image, random access continues sequentially from there, both streams stay in step, and an index past the end or a truncated file raises an exception instead of returning made-up data.",
 ["inputs", "histories", "fault_sequences"], "every index sequence, image size and truncated file",
 "No test touches the reader; the image files are not even present.",
 [MN, MNH, MAIN], [("getImage/nextImage/read", MN), ("MNistGenerator", MAIN)], state=[("current_index_", "index of the next image in both streams", MNH)], observe=["images, labels, exceptions"])
prop("C29", "Printing a matrix affects only the stream it is printed to",
 "Formatting a matrix writes every element, in row order, to the given stream only; no other stream is written or reconfigured and the given stream's own formatting settings are the same afterwards as before.",
 ["inputs"], "every matrix, target stream and prior stream state",
 "No test prints a matrix.",
 [SM, SMT], [("operator<< for matrices", SM), ("SimpleMatrix::serialize", SMT)], observe=["stream contents and formatting state"])
prop("C30", "Every public operation of the library templates can be used",
 "Every public member of the matrix, view and model templates, and every free matrix function, compiles when used with each supported element type (and label type); every declared member is defined, and every header can be included first, repeatedly and from several translation units.",
 ["programs"], "every public template operation and supported element type",
 "A template member that no test calls is never compiled.",
 [SM, SMT, SV, SVT, MM, MD, MDT], [("template definitions", SMT), ("ModelDescription members", MDT)], observe=["whether a program using the operation compiles"])
prop("C34", "An image display shows every pixel once, in order, with its scaled intensity",
 "Showing a matrix as an image writes one line per row and in it one blank cell per pixel of that row, in column order, coloured with three codes from 0 to 255; a three-layer image shows its (non-negative) components as codes proportional to the reference maximum (255 for integer elements, otherwise the largest value but at least 1), clipped at 255; any other image shows its first layer in grey, linearly from 0 for the smallest value to 255 for the reference maximum, also when all its values are equal to that maximum; the matrix is unchanged. (Codes are rounded down; the last digit of a floating-point code is not fixed.)",
 ["inputs"], "every image size, element type and set of pixel values",
 "No test shows an image.",
 [IU], [("printImage, printImageBWImpl, printImageColorImpl", IU)], observe=["standard output"])
prop("C31", "Training lowers the loss on learnable data",
 "On a data set that the chosen architecture can represent, repeated epochs with a sufficiently small learning rate lower the average loss.",
 ["inputs", "histories"], "every learnable data set and suitable learning rate",
 "No test trains; convergence depends on data and random initial weights.",
 [MDT, K, CL], [("train", MDT)], observe=["loss per epoch"])
prop("C32", "Numeric results stay finite for finite inputs",
 "Forward propagation, loss and gradients of finite inputs and parameters of ordinary magnitude contain no NaN or infinity.",
 ["inputs"], "every finite input and parameter set of ordinary magnitude",
 "A handful of small values are sampled.",
 [SX, AC, MDT, MM], [("max-offset in softMax, eps in lossFcn", SX)], observe=["outputs and gradients"])
prop("C33", "Training results do not depend on the number of worker threads",
 "With the same initial parameters and data, training yields the same parameters for every thread count up to floating-point rounding of the batch average.",
 ["schedules", "configurations"], "every thread count and schedule",
 "No test trains with threads.",
 [MDT], [("per-slot gradients averaged after join", MDT)], observe=["parameters after training"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
