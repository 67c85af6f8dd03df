"""The properties: one entry per check module (checks/cNN.py)."""
P = []
PKG = "high_order_layers_torch/"


def prop(id, title, statement, over, text, why, files, mech, note="", claimed=True, reason=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={"files": [PKG + f for f in files],
                 "mechanism": [{"name": a, "where": PKG + b} for a, b in mech]},
        note=note, claimed=claimed, reason=reason))


prop("C01", "Continuous piecewise layers evaluate their interpolating polynomial",
     "A continuous piecewise layer maps each input through one function per link and sums the links over the inputs. The link function is, on every segment of the domain [-length/2, length/2], the polynomial through that segment's coefficients at the segment's Chebyshev-Lobatto points, neighbouring segments sharing the coefficient at their common end. Inputs outside the domain continue the first or last segment's polynomial.",
     ["inputs", "configurations"], "every input value, coefficient value, order, segment count, domain length and layer shape",
     "Tests evaluate a few sampled points for a few configurations (mostly on [-1,1] and through interpolation identities); a wrong segment choice, stride or node shows only for particular segment/order/length combinations.",
     ["PolynomialLayers.py", "Basis.py", "LagrangePolynomial.py", "utils.py"],
     [("segment choice and local coordinate", "PolynomialLayers.py:Piecewise.which_segment/x_local"), ("coefficient gather", "PolynomialLayers.py:Piecewise.forward"), ("cardinal functions", "LagrangePolynomial.py:LagrangeBasis")])
prop("C02", "Continuous layers have no jumps",
     "The output of a continuous piecewise layer, of its product variant and of a continuous periodic layer is a continuous function of the input. Moving the input across a segment boundary, the end of the domain or the fold of the period never changes the output by more than the size of the step allows.",
     ["inputs", "configurations"], "every input position (all boundaries, from both sides), all coefficients, orders, segment counts, periods",
     "Continuity is a statement about every pair of neighbouring inputs; tests sample isolated points and never straddle every boundary.",
     ["PolynomialLayers.py", "utils.py"],
     [("shared end coefficients", "PolynomialLayers.py:Piecewise.forward"), ("triangle fold", "utils.py:make_periodic")])
prop("C03", "Discontinuous piecewise layers keep segments independent",
     "A discontinuous piecewise layer evaluates, on each segment, the polynomial through that segment's own coefficients only, and sums the links over the inputs. No input inside one segment is influenced by another segment's coefficients.",
     ["inputs", "configurations"], "every input value, coefficient value, order (including order one), segment count and length",
     "Tests compare a handful of points; a coefficient block addressed off by one shows only for some segment and order.",
     ["PolynomialLayers.py", "Basis.py", "LagrangePolynomial.py"],
     [("segment choice", "PolynomialLayers.py:PiecewiseDiscontinuous.which_segment"), ("coefficient gather", "PolynomialLayers.py:PiecewiseDiscontinuous.forward")])
prop("C04", "Product layers multiply one plus each link and subtract one",
     "A product layer's output is the product over its inputs of (1 + link value), minus one, where the link value is the layer's polynomial, piecewise polynomial or linear link. With alpha other than one the linear product layer and the product bases additionally remove the share (1 - alpha) of the plain sum of the links; the linear product layer adds its bias when it has one.",
     ["inputs", "configurations"], "every input, coefficient, bias and alpha; all product layer kinds, shapes, orders and segment counts",
     "Tests only check that a few constructions run; no value of a product layer is compared with its definition.",
     ["PolynomialLayers.py", "ProductLayer.py", "Basis.py"],
     [("product reduction", "Basis.py:BasisFlatProd.interpolate"), ("linear product", "ProductLayer.py:Product.forward")])
prop("C05", "Gradients are those of the interpolating polynomial",
     "The gradient of the output with respect to a coefficient is the value of that coefficient's cardinal polynomial on the segment that owns the input and exactly zero for coefficients of other segments. The gradient with respect to the input is the derivative of the active polynomial, through the period fold where there is one.",
     ["inputs", "configurations"], "every input, coefficient and upstream gradient; all fully connected polynomial layers",
     "No test compares a gradient with its mathematical value; training merely tends to converge.",
     ["PolynomialLayers.py", "Basis.py", "LagrangePolynomial.py"],
     [("differentiable gather", "PolynomialLayers.py:Piecewise.forward"), ("in-place free basis evaluation", "LagrangePolynomial.py:LagrangeBasis")])
prop("C06", "Default initialisation makes every link a constant within its bound",
     "After construction every link of a polynomial, piecewise or convolution layer is a constant function, and its constant comes from one random draw of its own in [0, magnitude / inputs]; with uniform initialisation every coefficient has its own draw within the magnitude. Every coefficient is initialised.",
     ["inputs", "configurations"], "every outcome of the random draws and every content of uninitialised memory; all layer kinds and shapes",
     "A test run sees one random outcome and fresh zeroed memory, so an uninitialised or shared coefficient passes.",
     ["PolynomialLayers.py", "FunctionalConvolution.py"],
     [("constant initialisation", "PolynomialLayers.py:Function.__init__, Piecewise.__init__")])
prop("C07", "Linear initialisation gives one straight line per link across segments",
     "Linear initialisation of a layer or network sets every link of every continuous or discontinuous piecewise layer (switch layers: of every child) to a single straight line over the whole domain, with slope at most max_slope times the requested scaling and offset at most max_offset in magnitude. Different links get independent lines.",
     ["inputs", "configurations"], "every outcome of the random draws and every previous coefficient value; layer kinds, orders, segments, lengths, networks with switch layers",
     "Tests draw one random line for a few shapes and do not bound slope or offset for every draw.",
     ["PolynomialLayers.py", "networks.py", "layers.py"],
     [("line through global node positions", "PolynomialLayers.py:initialize_polynomial_layer"), ("network walk", "networks.py:initialize_network_polynomial_layers")])
prop("C08", "p-refinement transfers the function exactly",
     "Transferring a piecewise layer to a layer of another polynomial order with the same segments sets every coefficient of the target to the value of the source's function at the target's node, on the segment the coefficient belongs to. A target of at least the source's order computes the same function for every input, the source is left untouched, and layers with different segment counts are refused.",
     ["inputs", "configurations"], "every source and stale target coefficient, every input, all pairs of orders, segment counts, shapes, lengths, continuous, discontinuous and product layers",
     "Tests compare two layers at random points for a few orders with square shapes and tolerance on the output only.",
     ["PolynomialLayers.py", "LagrangePolynomial.py"],
     [("per segment evaluation at target nodes", "PolynomialLayers.py:interpolate_polynomial_layer")])
prop("C09", "h-refinement transfers the function exactly",
     "Refining a continuous layer into one with other segments sets every target coefficient to the source function's value at that coefficient's position in the domain. When the target's segments subdivide the source's and its order is not lower, both layers are the same function of every input, periodic layers included; the source is left untouched.",
     ["inputs", "configurations"], "every coefficient and input, all segment pairs (multiples or not), orders, lengths and periods",
     "Tests compare a few random points for a few segment ratios, without periods and with the default length.",
     ["PolynomialLayers.py"],
     [("global position, owning segment, local position", "PolynomialLayers.py:refine_polynomial_layer")])
prop("C10", "Network refinement applies every layer's function to the new network",
     "Interpolating or hp-refining a high order network into another sets every piecewise layer of the new network to the function of the corresponding layer of the old one, whatever sits between the layers (normalisation, dropout, residual or switch blocks). When the new layers can represent the old functions, both networks give the same output for every input, and the old network is left untouched.",
     ["inputs", "configurations"], "every parameter of both networks, every input; depths, widths, per layer orders and segments, layer kinds",
     "Tests refine a few small networks and compare outputs at random points; a skipped layer or a touched source shows only with particular layer stacks.",
     ["networks.py", "PolynomialLayers.py"],
     [("layer pairing", "networks.py:interpolate_high_order_mlp/hp_refine_high_order_mlp")])
prop("C11", "Convolution layers sum one link function per window position",
     "A polynomial or piecewise convolution (1d and 2d) gives, at every output position, the sum over the input channels and kernel positions of the link function of that channel and position at the pixel under it. Padding pixels add nothing, stride, dilation, padding and period have their usual meaning, and rescale_output divides by the number of pixels in the window.",
     ["inputs", "configurations"], "every pixel, coefficient, image size, kernel, stride, padding, dilation, channel count, order, segment count, length, period, memory layout and floating type",
     "Tests compare outputs of 1d/2d layers with each other for one configuration, never with the definition for every pixel.",
     ["FunctionalConvolution.py", "PolynomialLayers.py", "layers.py", "Basis.py"],
     [("basis expansion", "Basis.py:BasisExpand, PiecewiseExpand, PiecewiseDiscontinuousExpand"), ("convolution", "FunctionalConvolution.py:Expansion2d/Expansion1d")])
prop("C12", "Transposed convolution layers spread one link function per kernel cell",
     "The continuous transposed convolution adds, for every input pixel and kernel position, the value of that link function at the pixel to the output position the kernel position reaches under the stride and padding. Output size, output padding, period and rescaling have their usual meaning.",
     ["inputs", "configurations"], "every pixel, coefficient, kernel, stride, padding, output padding, channel count, order, segment count, length and period",
     "Tests only look at the output shape.",
     ["FunctionalConvolutionTranspose.py", "layers.py", "Basis.py"],
     [("expansion and transposed convolution", "FunctionalConvolutionTranspose.py")])
prop("C13", "Fourier layers are the truncated Fourier series of the given length",
     "A Fourier layer (fully connected, 1d or 2d convolution) evaluates, per link, half its first coefficient plus the sine and cosine series of period length with its remaining coefficients, and sums the links. Shifting any input by a whole number of lengths leaves the output unchanged.",
     ["inputs", "configurations"], "every input over several periods, coefficient, number of components, length, layer shape",
     "Tests fit a function or check shapes; no coefficient or frequency is compared with the series.",
     ["Basis.py", "PolynomialLayers.py", "FunctionalConvolution.py", "layers.py"],
     [("series", "Basis.py:FourierBasis"), ("layers", "layers.py:high_order_fc_layers")])
prop("C14", "Mirror periodicity folds every input back by reflection",
     "make_periodic maps every input into one period around zero by reflecting at its ends: inputs inside the period are unchanged, the output is unchanged by shifts of two periods, and it never leaves the period. A layer with a periodicity gives the same output as the same layer without one on the folded input.",
     ["inputs", "configurations"], "every input at any whole number of periods from the origin, every period, tensor shape, layer kind, order and segment count",
     "Tests check a few points near the origin for one period; errors at fold points or many periods away are not sampled.",
     ["utils.py", "PolynomialLayers.py"],
     [("triangle fold", "utils.py:make_periodic"), ("use in layers", "PolynomialLayers.py:Function.forward/Piecewise.forward/PiecewiseDiscontinuous.forward")])
prop("C15", "Normalisation layers apply the documented scaling to every sample",
     "max_abs, max_center, max_abs_last, l2 and layer normalisation compute exactly their definition for each sample (or position) on its own: the shift and scale come from that sample's elements, eps prevents division by zero, and the result is bounded accordingly. A zero or constant sample gives finite output.",
     ["inputs", "configurations"], "every sample value, ordering, sign and tie of the elements, shapes, eps, dimensions and memory layouts",
     "Tests use one hand-made tensor per layer and do not cover ties, constant samples or negative extremes for every position.",
     ["layers.py", "utils.py"],
     [("normalisation functions", "utils.py:max_abs_normalization, max_center_normalization, l2_normalization"), ("classes", "layers.py:MaxAbsNormalization, MaxCenterNormalization, L2Normalization")])
prop("C16", "Every sample of a batch is computed independently of the others",
     "For every layer, network, normalisation, embedding and attention in evaluation mode, the output of a sample inside a batch equals the output of the same sample evaluated alone, at its own place in the batch. Nothing of another sample leaks into it.",
     ["inputs", "configurations"], "every content of all samples of the batch, every parameter, all module kinds",
     "A leak between samples depends on the other samples' values (maxima, segments); tests compare batches with nothing.",
     ["PolynomialLayers.py", "FunctionalConvolution.py", "FunctionalConvolutionTranspose.py", "layers.py", "networks.py", "attentions.py", "Basis.py"],
     [("per sample gather", "PolynomialLayers.py:Piecewise.forward"), ("contractions", "Basis.py"), ("normalisation axes", "layers.py")])
prop("C17", "SparseLion is Lion on coefficients with gradient and leaves others alone",
     "Each SparseLion step decays, moves by the sign of the interpolated momentum and updates the momentum of exactly the coefficients whose gradient is not zero; coefficients and momentum with zero gradient stay bit for bit as they were. This holds over any history of steps, with parameter groups, missing gradients, closures and a state_dict transfer in between.",
     ["inputs", "histories"], "every gradient history (every sparsity pattern), parameter value, learning rate, betas and weight decay",
     "Tests run one optimisation and look at the loss; which coefficients may move depends on the history of sparsity patterns.",
     ["sparse_optimizers/sparse_lion.py"],
     [("masked update", "sparse_optimizers/sparse_lion.py:update_fn"), ("state", "sparse_optimizers/sparse_lion.py:SparseLion.step")])
prop("C18", "Smoothing moves boundary values together and nothing else",
     "Smoothing a discontinuous layer moves the two coefficients on each interior segment boundary towards each other, each by half the given factor of their difference, so that the jump shrinks to (1 - factor) of itself and a factor of one closes it, and leaves every other coefficient unchanged. Smoothing a network applies this to all of its discontinuous layers and to nothing else.",
     ["inputs", "configurations"], "every coefficient, factor, number of applications, order, segment count, layer kind and network",
     "Tests smooth one layer shape; a boundary paired off by one or updated from already updated values shows only for some segments.",
     ["PolynomialLayers.py", "networks.py"],
     [("boundary update", "PolynomialLayers.py:smooth_discontinuous_layer"), ("network walk", "networks.py:smooth_discontinuous_network")])
prop("C19", "Fixed rotation layers emit all coordinates and their rotations",
     "The fixed rotation layer returns each input coordinate and, for every pair of coordinates, their combinations at the evenly spaced rotation angles (scaled when normalised), with weights that are never trained. The transform networks apply it in front of an MLP of the matching width.",
     ["inputs", "configurations"], "every input, number of inputs, number of rotations, normalisation, network weights",
     "Tests check the output width only.",
     ["layers.py", "networks.py"],
     [("rotation matrix", "layers.py:fixed_rotation_layer"), ("networks", "networks.py:transform_mlp, transform_low_mlp")])
prop("C20", "Attention outputs are value averages weighted by the softmax of the scores",
     "Scaled dot product, plain dot product, additive and location aware attention return, per query, the average of the values weighted by the softmax (or smoothed sigmoid share) of their documented score, together with these weights. The weights are non-negative and sum to one, masked keys get weight zero, and the output stays within the range of the values.",
     ["inputs", "configurations"], "every query, key, value, parameter, previous alignment and mask, batch and sequence length within the bounds",
     "No test looks at a value of an attention output.",
     ["attentions.py"],
     [("scores and softmax", "attentions.py:ScaledDotProductAttention, DotProductAttention, AdditiveAttention, LocationAwareAttention")])
prop("C21", "Multi-head attentions attend per head and per sample",
     "Every head of the multi-head, multi-head location aware, relative and customizing attentions works on its own slice of the projected features: its output is the softmax weighted average of that head's values for the same sample, heads are concatenated in order, and a sample's mask, previous alignment and positions act on that sample alone. The relative attention scores a pair by its content plus its relative position; returned alignments can be fed back as previous alignments.",
     ["inputs", "configurations"], "every query, key, value, mask, previous alignment and position embedding; batches, heads, head sizes and lengths within the bounds",
     "No test calls these classes; a mask or alignment used for the wrong head or sample shows only when batch and heads exceed one.",
     ["attentions.py"],
     [("head split and merge", "attentions.py:MultiHeadAttention.forward"), ("relative shift", "attentions.py:RelativeMultiHeadAttention._compute_relative_positional_encoding"), ("location energy", "attentions.py:MultiHeadLocationAwareAttention.forward, CustomizingAttention.get_loc_energy")])
prop("C22", "Fully connected networks are the documented chain of their layers",
     "The fully connected networks (HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, LowOrderMLP) apply, in order, one layer per requested width with that layer's own order and segments, a normalisation and then a nonlinearity between layers (never after the last), and with resnet add the previous layer's output. scale sets the domain length of every layer, initialization and dropout are passed on, and every coefficient is registered for training.",
     ["inputs", "configurations"], "every input, every value of every intermediate layer, widths, depths, per layer orders and segments, options and layer kinds",
     "Tests check that a forward pass runs or its shape; a skipped normalisation, a wrong layer's order or a missing residual keeps all shapes.",
     ["networks.py", "layers.py"],
     [("chain", "networks.py:HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, LowOrderMLP"), ("residual", "networks.py:HighOrderMLP.forward")])
prop("C23", "Convolutional networks chain their blocks and size every tail correctly",
     "The fully convolutional, simple convolutional, deconvolutional and tail focus networks apply convolution, normalisation and pooling of each block in order with that block's own channels, kernel, stride, padding, order and segments, and then flatten as documented. compute_sizes gives the actual number of outputs for every input size, the tail focus network concatenates all tails in order, and inconsistent configuration lists are refused.",
     ["inputs", "configurations"], "every input, every value of every intermediate block, every input size, channels, kernels, strides, paddings, orders and segments within the bounds",
     "Tests run one configuration and look at the shape; errors for particular strides, sizes or list lengths are not sampled.",
     ["networks.py", "utils.py"],
     [("chains", "networks.py:HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork"), ("tails", "networks.py:HighOrderTailFocusNetwork.compute_sizes")])
prop("C24", "The variational autoencoder samples, decodes and scores as defined",
     "VanillaVAE encodes to a latent mean and log variance that are linear in the flattened features, samples the latent as mean plus exp(log variance / 2) times an independent standard normal draw per value, and decodes it through its decoder. Its loss is the mean squared error plus the weighted KL divergence (summed over the latent, averaged over the batch), which is never negative.",
     ["inputs", "configurations"], "every input, weight, latent value and outcome of the normal draws; batch and latent sizes",
     "No test constructs the autoencoder; a wrong sign, factor or axis in the divergence or a shared draw keeps every shape.",
     ["networks.py"],
     [("encode, reparameterize, decode, loss", "networks.py:VanillaVAE")])
prop("C25", "Switch layers multiply and sum layers add their children's outputs",
     "A switch layer evaluates all of its children, each with coefficients of its own, at the same input and returns the product of their outputs (normalised when asked); a sum layer returns their sum. The input and the children's results are not altered and gradients are those of the product or sum.",
     ["inputs", "configurations"], "every input, coefficient, number and kind of children, orders, segments and lengths",
     "Tests run one shape forward; a child skipped or shared, or a gradient broken by an in-place product, is not noticed.",
     ["layers.py"],
     [("product", "layers.py:SwitchLayer.forward"), ("sum", "layers.py:SumLayer.forward")])
prop("C26", "Segment addressing is consistent for every position and segment",
     "which_segment returns the segment that contains a position (a boundary belongs to the segment on its right, positions outside to the first or last segment), after folding when the layer has a period. x_local and x_global are the inverse affine maps between a segment and the reference domain, and forward evaluates exactly the segment and local coordinate they give.",
     ["inputs", "configurations"], "every position, segment index, number of segments, length, period and tensor shape",
     "Tests look at a handful of positions in layers of length two.",
     ["PolynomialLayers.py"],
     [("addressing", "PolynomialLayers.py:Piecewise.which_segment, x_local, x_global"), ("discontinuous addressing", "PolynomialLayers.py:PiecewiseDiscontinuous.which_segment, x_local, x_global")])
prop("C27", "N dimensional polynomial layers interpolate on the tensor grid",
     "The n dimensional polynomial layers evaluate, per link, the tensor product Lagrange polynomial through the link's coefficients on the grid of Chebyshev-Lobatto points, for orders chosen per dimension; at a grid point they return its coefficient. The piecewise n dimensional layer does so with the coefficients of the segment that contains the point, separate for every input and output, and starts as one bounded constant per link.",
     ["inputs", "configurations"], "every point, coefficient, dimension, order and segment count per dimension, layer shape and length",
     "No test calls these layers.",
     ["LagrangePolynomial.py", "PolynomialLayers.py"],
     [("tensor basis", "LagrangePolynomial.py:LagrangeBasisND"), ("segments", "PolynomialLayers.py:PiecewiseND")])
prop("C28", "Evaluation changes nothing and parameters are the whole state",
     "Evaluating a layer, network, normalisation, embedding or attention leaves its inputs, its parameters and previously returned results unchanged; evaluating it again at the same input gives the same result, whatever was evaluated in between and in either mode. A module built the same way that loads its state_dict computes the same function, and copies share nothing.",
     ["inputs", "histories"], "every input and parameter, every order of evaluations within the bounds, all module kinds",
     "Caches and in-place updates show only in particular sequences of calls with different shapes; tests call each module once.",
     ["PolynomialLayers.py", "FunctionalConvolution.py", "FunctionalConvolutionTranspose.py", "layers.py", "networks.py", "utils.py", "attentions.py", "Basis.py"],
     [("forward methods", "PolynomialLayers.py:Piecewise.forward"), ("normalisation", "utils.py")])
prop("C29", "Positional embeddings are the documented functions of the position",
     "The sinusoidal embedding of a position consists of the sines and then the cosines of the position at geometrically spaced frequencies from 1 to 1/10000, for every even dimension; odd dimensions are refused. The Fourier, continuous and discontinuous embeddings are the corresponding layers with all of their options.",
     ["inputs", "configurations"], "every position, tensor shape, dimension, coefficient, order, segment count, length and period",
     "Tests check the output shape only.",
     ["positional_embeddings.py"],
     [("frequencies", "positional_embeddings.py:ClassicSinusoidalEmbedding.forward"), ("layers", "positional_embeddings.py:FourierSeriesEmbedding")])
prop("C30", "Lightning modules build the configured network and report its true metrics",
     "select_network builds exactly the network its configuration describes (orders, segments, widths and output size per layer) and refuses unknown model types. Training, validation and test steps return and log the cross entropy and accuracy, or the mean squared error, of the whole batch under their own names; the configured optimizer and scheduler cover all parameters at the configured rate.",
     ["inputs", "configurations"], "every input, logit, label assignment, target, coefficient and configuration within the bounds",
     "No test constructs these modules.",
     ["modules.py"],
     [("steps", "modules.py:ClassificationMixin.eval_step, RegressionMixin.eval_step"), ("selection", "modules.py:select_network"), ("optimizers", "modules.py:PredictionNetMixin.configure_optimizers")])
prop("C31", "Mesh positions are evenly spaced along each axis and its orthogonal",
     "positions_from_mesh returns, for every rotation, the coordinate of each mesh point along the rotated axis and along the axis orthogonal to it, each rescaled to the full range and centred at zero.",
     ["configurations"], "every mesh size, number of rotations and normalisation",
     "Tests check the range of the values only.",
     ["utils.py"],
     [("mesh", "utils.py:positions_from_mesh")],
     claimed=False,
     reason="the function's only inputs are small integers that fix tensor shapes and angles, so nothing in it can be made symbolic: checking it would be enumeration of concrete runs")
prop("C32", "Training gradients are the true derivatives of what modules compute",
     "For every layer, convolution, normalisation, network, attention and embedding, and for the autoencoder's loss, the gradients that backpropagation delivers for the inputs and for all parameters are the partial derivatives of the function the forward pass computes, wherever that function is differentiable. No path from a parameter or an input to the output is cut or counted twice, and no gradient is missing.",
     ["inputs", "configurations"], "every input, parameter and upstream gradient within the bounds, all module kinds",
     "Tests never compare a gradient with a derivative; a value detached, recomputed without gradient or overwritten in place leaves every output right.",
     ["PolynomialLayers.py", "FunctionalConvolution.py", "FunctionalConvolutionTranspose.py", "layers.py", "networks.py", "attentions.py", "Basis.py", "LagrangePolynomial.py", "ProductLayer.py", "utils.py"],
     [("gather and interpolate", "PolynomialLayers.py:Piecewise.forward"), ("normalisation", "layers.py:MaxAbsNormalization.forward"), ("networks", "networks.py:HighOrderMLP.forward"), ("attention", "attentions.py:RelativeMultiHeadAttention.forward"), ("periodic fold", "utils.py:make_periodic")])
