import json
P=[]
H="high_order_layers_torch/"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=H+w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=H+w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Saved state restores the whole model after a crash",
"For every layer and network of the library, the state saved at any moment of its life, loaded strictly into a model of the same configuration (freshly built in a new process after a crash, or already in use elsewhere), reproduces the saved model's outputs and gradients exactly, whatever saves were torn or lost in between. Every learnable tensor that influences an output is listed among the model's parameters and contained in its saved state. Deep and pickled copies compute the same as the original and share no storage with it.",
["histories","crash_points","configurations","fault_sequences"],
"For every model configuration, every history of training, evaluation, saving, copying and reloading, every crash point, and every loss or tearing of not yet durable writes.",
"No test saves or restores anything; parameters that were silently not registered (switch layers, residual sums, lazy layer norm) passed the whole suite.",
["layers.py","PolynomialLayers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","attentions.py","modules.py"],
[("all weights are registered parameters/buffers; nodes and denominators are rebuilt from the configuration","PolynomialLayers.py"),("containers register their sub-layers","layers.py: SumLayer, SwitchLayer; networks.py: HighOrderTailFocusNetwork.layer_dict")],
["state_dict/load_state_dict(strict=True)","parameters()","copy.deepcopy","pickle","model(x)"])

p("C02","Resuming from a checkpoint continues the very same training run",
"A training run that is killed at any point and resumed from its last durable checkpoint (model, optimizer, scheduler and random state) ends with exactly the parameters, losses and learning rates of the run that was never interrupted. This holds for cold restarts in a new process, for rebuilding everything inside the same process and for rolling back the live objects, and for the library's sparse optimizer, its training modules with their configured optimizers and schedulers, dropout, and mid-run refinement or smoothing. A torn or missing newest checkpoint only costs the steps since the previous one.",
["crash_points","histories","configurations","fault_sequences"],
"For every model, optimizer and schedule, every sequence of crashes (before, inside or after a step or a checkpoint write) and restarts of any kind.",
"Tests train for at most a few steps in one process and never checkpoint, restart or compare two runs.",
["sparse_optimizers/sparse_lion.py","modules.py","networks.py","layers.py","PolynomialLayers.py"],
[("all optimizer state lives in Optimizer.state and param_groups","sparse_optimizers/sparse_lion.py: SparseLion.step"),("optimizer and scheduler built only from configuration","modules.py: PredictionNetMixin.configure_optimizers"),("randomness only from the global torch/python generators","networks.py")],
["parameters after the run","loss history","optimizer.state_dict()"])

p("C03","The sparse optimizer applies the Lion rule to touched weights only",
"At every step, each weight whose gradient is non-zero is decayed by (1 - lr*weight_decay) and moved by lr against the sign of the blend of its momentum and gradient, and its momentum then absorbs the gradient; each weight whose gradient is exactly zero or absent keeps value and momentum bit for bit. This holds per parameter group with that group's current settings, through any history of steps, skipped gradients, learning-rate changes, added groups and saved and restored optimizer state. A closure is evaluated exactly once per step with gradients enabled and its value returned, and a closure that raises leaves every parameter and all optimizer state as they were.",
["histories","inputs","configurations","fault_sequences"],
"For every history of gradients (dense, sparse, zero, missing), groups, hyper-parameter changes, restarts and raising closures.",
"The one optimizer test checks a single step of a single group without decay; the decay was in fact never applied.",
["sparse_optimizers/sparse_lion.py"],
[("mask of non-zero gradients; indexed read-modify-write of parameter and momentum","sparse_optimizers/sparse_lion.py: update_fn, SparseLion.step")],
["parameter values before and after step()","state_dict()/load_state_dict()","return value of step(closure)"],
[("exp_avg","momentum per weight","sparse_optimizers/sparse_lion.py: SparseLion.step")])

p("C04","Learning in one segment leaves what was learned in the others untouched",
"Training a single piecewise layer (fully connected, switch, product, N-dimensional, convolutional or transposed) on inputs that fall in some segments leaves its outputs for inputs whose every coordinate lies in segments that training never touched exactly as they were; for continuous layers the segments adjacent to a trained one, which share its boundary node, count as touched. Inputs beyond the domain belong to the nearest end segment and, with mirror periodicity, to the segment of their mirror image. This holds through every training history, including steps that fail half way and are abandoned.",
["histories","inputs","fault_sequences","configurations"],
"For every layer configuration, every sequence of training samples, optimizers (plain gradient descent, sparse Lion) and aborted steps.",
"Tests evaluate shapes and constant initial functions and never train one segment and look at another.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","layers.py","utils.py","sparse_optimizers/sparse_lion.py"],
[("segment index selects the active weights of each link","PolynomialLayers.py: Piecewise.forward, PiecewiseDiscontinuous.forward, PiecewiseND"),("segment index selects the active channels","Basis.py: PiecewiseExpand, PiecewiseExpand1d, PiecewiseDiscontinuousExpand, PiecewiseDiscontinuousExpand1d"),("mirror periodicity","utils.py: make_periodic")],
["layer(x) at probe points before and after training"])

p("C05","Concurrent callers of a model get the answers they would get alone",
"When several threads at once call models that have been used before - the same one or different ones, for evaluation or for gradients - or refine, copy or save them, each call returns exactly what it returns when nothing else runs. No call changes another caller's inputs, results or parameters, nor the grad mode or default dtype another thread sees.",
["schedules","histories","configurations"],
"For every set of caller threads and every interleaving of their steps at source-line granularity.",
"All tests are single threaded; an interleaving inside a forward pass is never produced.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","layers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","attentions.py","utils.py","positional_embeddings.py"],
[("forward passes keep all intermediate results in locals and write no module or global state","PolynomialLayers.py, Basis.py, LagrangePolynomial.py, layers.py, attentions.py")],
["return values per thread","inputs and state_dict after the run"])

p("C06","A failed or interrupted call leaves no trace",
"If a call that evaluates a model, computes its gradients, copies it or refines another network from it is cut short at any instant by an exception - allocation failure, runtime error, interrupt - the exception reaches the caller, and the model's weights, buffers, modes and parameter flags, the caller's inputs and the process-wide state (grad mode, default dtype, random streams) are as they were before the call. Repeating the call, or making any later call, then gives the result of a process in which the failure never happened. A refinement or linear initialisation that was cut short is completed correctly by running it again.",
["fault_sequences","histories","configurations","crash_points"],
"For every operation, every point (tensor operation or source line) at which it is cut short, every kind of exception, and every sequence of such failures and later calls.",
"No test injects a failure inside a call.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","layers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","attentions.py","utils.py","positional_embeddings.py","modules.py"],
[("forward passes are free of side effects","PolynomialLayers.py, Basis.py, layers.py, attentions.py"),("no_grad regions are context managers","PolynomialLayers.py: interpolate_polynomial_layer, refine_polynomial_layer, initialize_polynomial_layer")],
["state_dict, training flags, requires_grad, inputs","torch.is_grad_enabled, default dtype, RNG states","results of later calls"])

p("C07","A request's answer never depends on what it was batched with",
"In evaluation, the output for a sample is the same (to rounding) whether it is sent alone or in a batch of any size, at any position and together with any other samples, including duplicates, extreme values and NaN or infinity, for all layers, networks and attention modules including per-sample masks. This holds for every way in which a batching service groups, reorders, retries and duplicates requests.",
["schedules","inputs","fault_sequences","configurations"],
"For every arrival order, batching deadline, batch size, retry and duplication of requests and every set of co-batched samples.",
"Tests run one batch per model and never compare a sample across batches.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","layers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","attentions.py","utils.py","positional_embeddings.py"],
[("flattened weight gathering is laid out batch-major and reshaped back per sample","PolynomialLayers.py: Piecewise.forward"),("expansion scatter per element","Basis.py"),("normalisations reduce within a sample","utils.py"),("heads-first layout with matching mask","attentions.py: MultiHeadAttention.forward")],
["model(batch)[i] versus model(sample)"])

p("C08","Sharded gradients add up to the full-batch gradient",
"For a loss that is a sum over samples, the gradients computed on any split of a batch into shards, on any replicas, in any order and with any shard recomputed or delivered twice after a crash, add up (each shard counted once) to the gradient of the whole batch in one call, for every layer and network without batch statistics or active dropout. Accumulating shard by shard into one model gives the same sum, and replicas that apply the same sum hold identical weights.",
["schedules","fault_sequences","inputs","configurations"],
"For every partition of the batch, assignment to replicas, crash and rejoin, message loss, duplication and reordering.",
"Tests hardly ever call backward and never compare gradients of different splits.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","layers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","attentions.py","utils.py"],
[("differentiable gather/scatter of the active weights accumulates over samples","PolynomialLayers.py: Piecewise.forward; Basis.py: PiecewiseExpand.__call__"),("no in-place state in the forward pass","layers.py: SwitchLayer.forward")],
["parameter gradients per shard and for the full batch"])

p("C09","Refinement never changes what a trained network computes",
"At any point of a training history, copying a network into one of higher or equal polynomial order (p), into one whose segment counts are multiples of its own (h), or both at once (hp), makes the new network compute the same function to rounding, for every input inside or outside the domain, and leaves the source exactly as it was. p covers continuous, discontinuous, product and switch layers; h and hp cover the continuous ones; both cover residual connections, periodicity and parameter-free normalisation. Chains of refinements with training in between, and refinements interrupted and run again, preserve it as well.",
["histories","inputs","configurations","fault_sequences"],
"For every architecture, weights reached by any training history, chain of refinements, interruption point and input.",
"The refinement tests compare a handful of sizes on freshly initialised networks whose links are all constants, so almost any wrong interpolation passes.",
["PolynomialLayers.py","networks.py","layers.py","LagrangePolynomial.py","Basis.py"],
[("evaluate the source polynomial at the nodes of the target","PolynomialLayers.py: interpolate_polynomial_layer, refine_polynomial_layer"),("pairing of layers","networks.py: interpolate_high_order_mlp, hp_refine_high_order_mlp"),("delegation to inner layers","layers.py: SwitchLayer.interpolate, SwitchLayer.refine")],
["network_in(x) versus network_out(x)","network_in.state_dict()"])

p("C10","A call depends only on configuration, current weights and inputs",
"What a layer, network, normalisation, attention or embedding returns (and its gradient) is determined by its configuration, its current parameters and buffers, its mode and its inputs, and is the same as in a process that never did anything else. It does not depend on earlier calls, shapes, dtypes or modes, on edits or reloads of weights in between, on other models created, used or destroyed in the process, or on how the input is laid out in memory. Calls modify neither their inputs nor results handed out earlier, and evaluation leaves weights, gradients and random streams untouched.",
["histories","inputs","configurations","schedules"],
"For every interleaved history of calls, weight edits, reloads, mode, dtype and layout changes over several models in one process.",
"Every test builds a fresh model, calls it once or twice and looks at that result only.",
["PolynomialLayers.py","Basis.py","LagrangePolynomial.py","layers.py","networks.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","attentions.py","utils.py","positional_embeddings.py"],
[("per-instance basis objects computed from the configuration only","LagrangePolynomial.py, Basis.py"),("forward passes read self and write only locals","PolynomialLayers.py, layers.py, networks.py, attentions.py"),("out-of-place normalisation and periodicity","utils.py")],
["results of each call versus the same call in a pristine process"])

p("C11","A fixed seed fixes every result",
"Two executions that set the same random seeds and make the same library calls produce the same models, training runs, samples and outputs, no matter what the clock, hash seed, entropy source or uninitialised memory contain, and no matter what ran earlier in the process. In evaluation mode no layer or network draws a random number except the documented sampling of the variational autoencoder.",
["schedules","histories","configurations","fault_sequences"],
"For every program of constructions, initialisations, training and sampling, and every setting of the ambient nondeterminism (allocator contents, clock, hash seed, process history).",
"Tests look at one execution; a repeat in the same process does not vary the ambient sources.",
["PolynomialLayers.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py","ProductLayer.py","layers.py","networks.py","attentions.py","modules.py","positional_embeddings.py"],
[("all randomness from the global torch and python generators","PolynomialLayers.py: constant_random_initialization, initialize_polynomial_layer; networks.py: VanillaVAE"),("every parameter is initialised before use","PolynomialLayers.py: Function, Piecewise; ProductLayer.py; attentions.py")],
["state_dict and outputs of two executions"])

p("C12","Smoothing closes jumps geometrically and moves nothing else",
"One smoothing call with a given factor scales the jump at every interior segment boundary of every discontinuous link (two or more nodes per segment) by (1 - factor) and keeps the mean of its two sides. It leaves the values at all other nodes, the ends of the domain and every other layer exactly as they were, so k calls scale the jumps by (1 - factor)^k whatever training, saving, restoring or refining happened before.",
["histories","inputs","configurations","fault_sequences"],
"For every discontinuous network, every history of training, smoothing with varying factors, reloads and refinement.",
"One test smooths one freshly initialised (constant) network once and prints; jumps and other nodes are never compared.",
["PolynomialLayers.py","networks.py","layers.py"],
[("paired strided update of the two nodes at each interior boundary","PolynomialLayers.py: smooth_discontinuous_layer"),("selection of the discontinuous layers","networks.py: smooth_discontinuous_network")],
["one-sided limits of each link at the segment boundaries","node values"])

p("C13","Linear re-initialisation erases history and draws the promised lines",
"After linear initialisation of a network, every link of every continuous and discontinuous piecewise layer (also inside switch layers and residual connections) is one straight line across the whole domain, drawn for that link with slope and offset within the requested bounds, all other layers are unchanged, and the outcome is determined by the random seed alone. It does not depend on what the network was trained to, on smoothing, reloading or refinement before, or on earlier initialisations that were interrupted.",
["histories","configurations","fault_sequences"],
"For every network, history before the call, bound, slope scaling, seed, and interrupted attempt.",
"One test calls it once on a fresh network without looking at the resulting functions.",
["PolynomialLayers.py","networks.py","layers.py"],
[("per-link random line evaluated at the nodes of each segment","PolynomialLayers.py: initialize_polynomial_layer"),("traversal of the network","networks.py: initialize_network_polynomial_layers; layers.py: SwitchLayer.initialize")],
["link functions sampled over the domain","state_dict of the other layers"])

NA=[
("C14","Polynomial layers interpolate their nodes exactly","Each polynomial link takes its weight's value at each node, reproduces every polynomial of its order and sums link contributions over the inputs, for every order, segment count and input.",["PolynomialLayers.py","LagrangePolynomial.py","Basis.py"],"pure function of weights and input: no schedule, clock, I/O, fault or multi-party behaviour takes part"),
("C15","Continuous layers have no jumps at segment boundaries","The function computed by a continuous piecewise layer approaches the same value from both sides of every segment boundary, for all weights.",["PolynomialLayers.py","Basis.py"],"pure function of weights and input; nothing a scheduler or fault could influence"),
("C16","Convolutions equal basis expansion followed by ordinary convolution","A high-order convolution equals the ordinary (transposed) convolution of the basis expansion of its input, for all kernel sizes, strides, paddings, rescalings and inputs.",["FunctionalConvolution.py","FunctionalConvolutionTranspose.py","Basis.py"],"pure function equality between two formulas; no nondeterminism or fault takes part"),
("C17","Normalisations bound their output","Max-abs, centred and L2 normalisation map every sample into their stated range for every input.",["utils.py","layers.py"],"pure function of the input"),
("C18","Fourier layers compute the truncated Fourier series of their period","Fourier links are periodic with the given length and equal the series given by their weights.",["LagrangePolynomial.py","PolynomialLayers.py"],"pure function of weights and input"),
("C19","Product layers compute the documented sum-product formula","Product layers return the product of (1 + contributions) minus one with the documented linear correction.",["ProductLayer.py","Basis.py"],"pure function of weights and input"),
("C20","Attention weights are normalised and respect the mask","Attention weights of each query are non-negative, sum to one and vanish at masked positions, and the context is their weighted sum.",["attentions.py"],"pure function of weights, inputs and mask (its batching aspect is C07)"),
("C21","Declared sizes match the tensors produced","Output shapes and the sizes the networks report agree for every valid configuration and invalid configurations are rejected.",["networks.py","layers.py","modules.py"],"pure function of the configuration"),
("C22","Rotations and mesh positions are the documented coordinates","Fixed rotation layers and mesh positions return the documented rotated, scaled coordinates.",["layers.py","utils.py"],"pure function of the arguments"),
("C23","The variational loss is reconstruction plus weighted divergence","The autoencoder's loss equals the documented formula for all inputs and latent statistics.",["networks.py"],"pure function of its tensor arguments"),
]
nas=[]
for i,t,s,f,r in NA:
    p(i,t,s,["inputs","configurations"],"For every configuration, weights and input.","Tests sample a few fixed sizes, mostly with constant links.",f,[("formula evaluated in the forward pass",f[0])])
    nas.append(dict(property=i,reason=r+"; deterministic simulation would be plain input generation here"))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
json.dump(nas,open("/verif/tools/not_applicable.json","w"))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
