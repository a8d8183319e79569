"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
import os

N = "neural_network_lyapunov/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None,
         observe=None):
    a = {"files": [N + f for f in files],
         "mechanism": [{"name": m[0], "where": N + m[1]} for m in mech]}
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1], "where": N + s[2]}
                      for s in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


GUR = ("The repository's tests for this part import gurobipy, which is not "
       "installed, so no test reaches it here; where Gurobi exists they "
       "sample a handful of networks and points. ")

prop("C01", "Affine piece of a ReLU network at an activation pattern",
     "For a fully connected (leaky) ReLU network and any input, the activation"
     " pattern reported for the input selects an affine piece whose value at "
     "the input is the network output and whose polyhedron contains the input;"
     " every point of that polyhedron has the network output given by that "
     "affine piece. The list of all activation patterns of an input is exactly"
     " the set obtained by choosing both signs at each unit whose "
     "pre-activation is zero, and a vector of unit binaries converts to the "
     "pattern it denotes.",
     ["inputs", "configurations"],
     "All layer widths, weights, biases (present or absent), leaky slopes and "
     "inputs, including inputs with pre-activations exactly zero.",
     GUR + "Ties (zero pre-activation) have measure zero under sampling.",
     ["relu_to_optimization.py"],
     [("pattern of an input", "relu_to_optimization.py:"
       "ComputeReLUActivationPattern"),
      ("all patterns", "relu_to_optimization.py:"
       "compute_all_relu_activation_patterns"),
      ("affine piece", "relu_to_optimization.py:ReLUGivenActivationPattern"),
      ("binaries to pattern", "relu_to_optimization.py:"
       "relu_activation_binary_to_pattern")])

prop("C02", "Mixed-integer encoding of a ReLU network is its exact graph",
     "For every input in the given box, the mixed-integer constraints "
     "generated for a ReLU network are feasible and every feasible assignment "
     "of slacks and binaries yields exactly the network output, and inputs "
     "outside the box are infeasible. This holds for every way of computing "
     "neuron bounds; the binaries of a feasible assignment are the units' "
     "activations, and the bounds attached to slack and binary variables "
     "never exclude a value taken in the box.",
     ["inputs", "configurations"],
     "All networks (with or without bias, any slope, any widths), boxes and "
     "bound-propagation methods, including units that are always or never "
     "active.",
     GUR + "The equivalence is over every point of the box and all binaries.",
     ["relu_to_optimization.py", "relu_to_optimization_utils.py", "utils.py"],
     [("network encoding", "relu_to_optimization.py:ReLUFreePattern."
       "output_constraint"),
      ("unit encoding", "utils.py:replace_leaky_relu_mixed_integer_constraint"),
      ("per-layer constraints", "relu_to_optimization_utils.py:"
       "_add_constraint_by_layer")])

prop("C03", "Neuron and output bounds of a network are sound",
     "For every input in the box, every neuron's pre-activation, every "
     "neuron's output and every network output lies within the reported "
     "bounds, whichever bound method is used (interval, LP, MILP or mixed). "
     "LP bounds are never looser than interval bounds, MILP bounds never "
     "looser than LP bounds, and MILP output bounds are attained.",
     ["inputs", "configurations"],
     "All networks, boxes and bound methods; optional extra restriction of "
     "the input set.",
     GUR + "Soundness is over every point of the box.",
     ["relu_to_optimization.py", "mip_utils.py", "utils.py"],
     [("layer bounds", "relu_to_optimization.py:ReLUFreePattern."
       "_compute_layer_bound"),
      ("interval propagation", "mip_utils.py:propagate_bounds"),
      ("LP/interval range", "mip_utils.py:compute_range_by_lp")])

prop("C04", "Cuts that strengthen a leaky-ReLU encoding remove no solution",
     "Every linear cut produced to strengthen the encoding of a (leaky) ReLU "
     "unit is satisfied by the unit's true output and activation at every "
     "input in the unit's input box. A cut requested for a given fractional "
     "point is one that point violates, of the largest possible violation, "
     "and none is produced when no such cut is violated.",
     ["inputs", "configurations"],
     "All weights, biases, boxes, slopes, index sets and fractional points.",
     GUR + "Validity is over the whole input box and both activations.",
     ["mip_utils.py", "relu_to_optimization.py"],
     [("cut for an index set", "mip_utils.py:strengthen_relu_mip_w_indices"),
      ("most violated cut", "mip_utils.py:strengthen_relu_mip_given_pts"),
      ("network-level cuts", "relu_to_optimization.py:ReLUFreePattern."
       "strengthen_mip_at_point")])

prop("C05", "Encoded network-gradient products equal the gradient product",
     "For a ReLU network, the constraints encoding (gradient of the output) "
     "times a vector are feasible for every vector in its box and every "
     "activation, and then force the encoded output to be the product of "
     "the affine piece's gradient with the vector; the reported bounds "
     "contain every value it takes. The multilinear description of the "
     "output gradient evaluates to the same gradient at every activation.",
     ["inputs", "configurations"],
     "All networks, vector boxes, activation binaries and bound methods.",
     GUR + "The identity is over all activations and all vectors in the box.",
     ["relu_to_optimization.py"],
     [("gradient times vector", "relu_to_optimization.py:ReLUFreePattern."
       "output_gradient_times_vector"),
      ("multilinear gradient", "relu_to_optimization.py:ReLUFreePattern."
       "output_gradient")])

prop("C06", "Piecewise-linear building blocks are encoded exactly",
     "The mixed-integer encodings of a binary-times-continuous product, "
     "absolute value, maximum, (leaky) ReLU, leaky-ReLU derivative times a "
     "variable, saturation to limits and membership of a box's boundary are "
     "feasible exactly on the graph of the function they encode, for every "
     "argument in the declared range and for every sign pattern of that "
     "range. Arguments outside the declared range are infeasible, except where "
     "the encoding declares none (maximum, a saturation that cannot occur), and an "
     "optional requirement (a binary fixed at zero input) is honoured.",
     ["inputs", "configurations"],
     "All ranges (negative, positive, straddling or touching zero; limits "
     "inside or outside the range), dimensions and arguments.",
     GUR + "Each range shape is a different code path; exactness is over all "
     "arguments.",
     ["utils.py"],
     [("product", "utils.py:replace_binary_continuous_product"),
      ("absolute value", "utils.py:absolute_value_as_mixed_integer_constraint"),
      ("maximum", "utils.py:max_as_mixed_integer_constraint"),
      ("saturation", "utils.py:add_saturation_as_mixed_integer_constraint"),
      ("box boundary", "utils.py:box_boundary")])

prop("C07", "Interval, polytope and LP range computations are tight",
     "The range of a linear map over a box (optionally cut by linear "
     "inequalities), the image interval of a leaky ReLU, and the extent of a "
     "polytope along a coordinate are exactly the infimum and supremum over "
     "the set, with unbounded and empty sets reported as such. A polyhedron "
     "is declared bounded iff it is, projecting a point returns the nearest "
     "point of the polyhedron, and the closed-form optimal value of a linear "
     "program equals its optimum and carries its derivatives.",
     ["inputs"],
     "All matrices, boxes, polytopes (bounded, unbounded, empty) and slopes.",
     GUR + "Exactness is over all points of the set.",
     ["mip_utils.py", "utils.py"],
     [("interval range", "mip_utils.py:compute_range_by_IA"),
      ("LP range", "mip_utils.py:compute_range_by_lp"),
      ("polytope extent", "utils.py:compute_bounds_from_polytope"),
      ("leaky ReLU interval", "utils.py:leaky_relu_interval"),
      ("bounded polyhedron", "utils.py:is_polyhedron_bounded"),
      ("projection", "utils.py:project_to_polyhedron"),
      ("LP cost", "utils.py:linear_program_cost")])

prop("C08", "Generalised gradients enumerate exactly the one-sided limits",
     "The gradients reported for the l1 norm, the l-infinity norm and a ReLU "
     "network at a point are exactly the gradients of the affine pieces "
     "active there: one where the function is differentiable, and all the "
     "combinations at kinks (within the given tolerance). The Minkowski sum "
     "of two such sets contains each pairwise sum.",
     ["inputs"],
     "All vectors and networks, including zeros, ties of any multiplicity "
     "and custom subgradient choices.",
     GUR + "Ties have measure zero under random sampling.",
     ["utils.py"],
     [("l1 norm", "utils.py:l1_gradient"),
      ("l-infinity norm", "utils.py:l_infinity_gradient"),
      ("network", "utils.py:relu_network_gradient"),
      ("set sum", "utils.py:minkowski_sum")])

prop("C09", "Network parameters survive being flattened, loaded and saved",
     "Reading a network's parameters into a flat vector and writing a flat "
     "vector into a network are inverse to each other and use one layer-wise "
     "order (weights row by row, then the bias) that network construction "
     "shares; gradients are read in the same order with zeros where absent. "
     "Reported layer widths, slope and bias flags rebuild the network, and "
     "saved models reload to the same function and limits.",
     ["configurations", "inputs"],
     "All layer widths, bias flags, slopes and parameter values.",
     GUR + "Only some architectures are sampled.",
     ["utils.py"],
     [("build", "utils.py:setup_relu"), ("write", "utils.py:update_relu_params"),
      ("read", "utils.py:extract_relu_parameters"),
      ("structure", "utils.py:extract_relu_structure"),
      ("gradient", "utils.py:extract_relu_parameters_grad")])

prop("C10", "The MIP kept as matrices is the MIP handed to the solver",
     "However variables, single constraints, matrix constraints and encoded "
     "blocks are added to a mixed-integer program, the matrices and bounds "
     "kept alongside the solver model describe the same feasible set and "
     "objective: every assignment satisfies one iff it satisfies the other; bounds attached to an encoded block "
     "only tighten the solver's variables. Duplicated or foreign variables in "
     "one call are refused. Relaxed binaries stay continuous in the unit interval until the "
     "relaxation is removed, after which they are binary.",
     ["histories", "inputs"],
     "All sequences of add-variable, add-constraint, add-block, objective and "
     "un-relax operations.",
     GUR + "Test cases are a few fixed sequences.",
     ["gurobi_torch_mip.py"],
     [("variables", "gurobi_torch_mip.py:GurobiTorchMIP.addVars"),
      ("linear constraints", "gurobi_torch_mip.py:GurobiTorchMIP.addLConstr"),
      ("matrix constraints", "gurobi_torch_mip.py:GurobiTorchMIP.addMConstr"),
      ("blocks", "gurobi_torch_mip.py:GurobiTorchMIP."
       "add_mixed_integer_linear_constraints"),
      ("un-relax", "gurobi_torch_mip.py:GurobiTorchMIP."
       "remove_binary_relaxation")])

prop("C11", "Recomputed MIP objective equals the solver optimum",
     "After solving, the objective recomputed from the kept problem data and "
     "the active constraints at a solution equals the solver's value for that "
     "solution (optimal or from the solution pool), for linear and convex "
     "quadratic objectives and both senses. Its derivative with respect to "
     "every problem coefficient is the derivative of the optimal value while "
     "the active set and binaries are unchanged. A solution with solver noise "
     "leads to a widened activity tolerance or a refusal, never a wrong value.",
     ["inputs", "histories"],
     "All feasible programs, both senses, all pool indices, with and without "
     "a penalty term, with and without equality rows.",
     GUR + "Test cases are a few small programs.",
     ["gurobi_torch_mip.py"],
     [("active set", "gurobi_torch_mip.py:GurobiTorchMIP."
       "get_active_constraint_indices_and_binary_val"),
      ("recompute", "gurobi_torch_mip.py:GurobiTorchMIP."
       "compute_objective_from_mip_data_and_solution"),
      ("quadratic", "gurobi_torch_mip.py:GurobiTorchMIQP."
       "compute_objective_from_mip_data")])

prop("C12", "Combining and transforming encoded blocks keeps their meaning",
     "Substituting an affine map for the input of an encoded block gives the "
     "block of the composed function; stacking two blocks gives the block of "
     "the pair of functions, on the same or on separate inputs, with "
     "intersected or concatenated variable bounds, and substituting into a "
     "block with input bounds is refused. A cloned block is "
     "independent of the original, and reported sizes match the data.",
     ["inputs", "configurations"],
     "All blocks, with any subset of the optional matrices and bounds absent.",
     GUR + "Each combination of absent parts is a separate path.",
     ["gurobi_torch_mip.py"],
     [("substitute", "gurobi_torch_mip.py:MixedIntegerConstraintsReturn."
       "transform_input"),
      ("stack", "gurobi_torch_mip.py:concatenate_mixed_integer_constraints"),
      ("clone", "gurobi_torch_mip.py:MixedIntegerConstraintsReturn.clone")])

prop("C13", "Hybrid linear systems: simulation and encoding agree",
     "A hybrid linear system steps a state (and input) by the affine map of a "
     "mode whose polytope contains it, reports every mode's result as "
     "possible, and refuses a state no mode contains. The mixed-integer "
     "constraints of the system are feasible exactly for contained points "
     "and then force a successor that is the affine map of a containing mode.",
     ["inputs", "configurations"],
     "All mode counts, polytopes (overlapping or touching), states and inputs "
     "on, inside and outside the boundaries, continuous or discrete time.",
     GUR + "Mode boundaries are rarely sampled.",
     ["hybrid_linear_system.py"],
     [("simulate", "hybrid_linear_system.py:HybridLinearSystem.step_forward"),
      ("encode", "hybrid_linear_system.py:HybridLinearSystem."
       "mixed_integer_constraints"),
      ("autonomous encode", "hybrid_linear_system.py:"
       "AutonomousHybridLinearSystem.mixed_integer_constraints"),
      ("derivative bounds", "hybrid_linear_system.py:"
       "AutonomousHybridLinearSystem.mode_derivative_bounds")])

prop("C14", "Cost-to-go samples are sums of stage costs along the simulation",
     "The cost-to-go attached to each state of a simulated discrete-time "
     "trajectory is the sum of stage costs from that state to the end of the "
     "horizon, each step being one step of the system; the continuous-time "
     "version integrates the stage cost along the flow. Sample generation "
     "skips initial states whose trajectory leaves the domain and keeps every "
     "other, and partitioning a state-input box yields cells that cover it "
     "without overlap.",
     ["inputs", "histories"],
     "All systems, initial states, stage costs, horizons, grids.",
     GUR + "Domain-leaving trajectories are not exercised.",
     ["hybrid_linear_system.py"],
     [("discrete", "hybrid_linear_system.py:"
       "compute_discrete_time_system_cost_to_go"),
      ("continuous", "hybrid_linear_system.py:"
       "compute_continuous_time_system_cost_to_go"),
      ("samples", "hybrid_linear_system.py:generate_cost_to_go_samples"),
      ("partition", "hybrid_linear_system.py:partition_state_input_space")])

prop("C15", "Autonomous network dynamics: step, equilibrium and encoding",
     "An autonomous system whose next state is given by a ReLU network (plain, "
     "equilibrium-pinned, or residual) steps exactly as its defining formula, "
     "single or batched, and the pinned and residual forms map the equilibrium "
     "to itself for any network weights. The encoded dynamics is feasible for "
     "every state in the box and forces exactly that successor.",
     ["inputs", "configurations"],
     "All networks, equilibria, boxes, states, bound methods.",
     GUR + "The equivalence is over the whole state box.",
     ["relu_system.py"],
     [("plain", "relu_system.py:AutonomousReLUSystem"),
      ("pinned", "relu_system.py:AutonomousReLUSystemGivenEquilibrium"),
      ("residual", "relu_system.py:"
       "AutonomousResidualReLUSystemGivenEquilibrium")])

prop("C16", "Controlled network dynamics: step, equilibrium and encoding",
     "A controlled system given by a ReLU network (plain, equilibrium-pinned, "
     "second-order, or second-order with selected network inputs) steps "
     "exactly as its defining formula, single or batched, and the pinned "
     "forms map the equilibrium state under the equilibrium input to itself "
     "for any weights. The encoded dynamics is feasible for every state and "
     "input in their boxes and forces exactly that successor; positions of "
     "second-order systems integrate the mean of old and new velocity.",
     ["inputs", "configurations"],
     "All networks, equilibria, boxes, states, inputs, time steps, bound "
     "methods and selected network inputs.",
     GUR + "The equivalence is over the whole state-input box.",
     ["relu_system.py"],
     [("plain", "relu_system.py:ReLUSystem"),
      ("pinned", "relu_system.py:ReLUSystemGivenEquilibrium"),
      ("second order", "relu_system.py:ReLUSecondOrderSystemGivenEquilibrium"),
      ("residue", "relu_system.py:"
       "ReLUSecondOrderResidueSystemGivenEquilibrium")])

prop("C17", "Closed loop: control law, saturation and encoding agree",
     "The control of a feedback system is the controller output shifted so "
     "that the equilibrium state gives the equilibrium input, clamped to the "
     "input limits, for network and linear controllers, single or batched; a "
     "closed-loop step is the plant step under that control. The encoded "
     "closed loop is feasible for every state in the box and forces exactly "
     "that control and successor.",
     ["inputs", "configurations"],
     "All plants, controllers, limits, equilibria, states, bound methods, "
     "including controls that saturate always, never or sometimes.",
     GUR + "The equivalence is over the whole state box.",
     ["feedback_system.py", "utils.py"],
     [("control", "feedback_system.py:FeedbackSystem.compute_u"),
      ("step", "feedback_system.py:FeedbackSystem.step_forward"),
      ("encode", "feedback_system.py:FeedbackSystem."
       "add_dynamics_mip_constraint"),
      ("saturation", "utils.py:add_saturation_as_mixed_integer_constraint")])

prop("C18", "Control-affine systems: drift, input matrix and encoding agree",
     "For a control-affine system the dynamics is drift plus input matrix "
     "times the control clamped to its limits; a "
     "second-order system's position derivative is its velocity and is "
     "unaffected by the control. The encoded drift and input matrix are "
     "feasible for every state in the box, force exactly those values, and "
     "lie within the reported entry-wise bounds; fitting a model of this form "
     "reports zero loss and leaves the networks alone on data they explain.",
     ["inputs", "configurations"],
     "All matrices/networks, states, controls inside and outside the limits, "
     "bound methods.",
     GUR + "The equivalence is over the whole state box.",
     ["control_affine_system.py"],
     [("dynamics", "control_affine_system.py:ControlPiecewiseAffineSystem."
       "dynamics"),
      ("linear", "control_affine_system.py:LinearSystem"),
      ("second order", "control_affine_system.py:"
       "SecondOrderControlAffineSystem"),
      ("network", "control_affine_system.py:"
       "ReluSecondOrderControlAffineSystem")])

prop("C19", "Candidate Lyapunov function: value and zero at equilibrium",
     "The candidate function is the network output minus its output at the "
     "equilibrium plus a weighted l1 norm of the transformed state error, so "
     "it is zero at the equilibrium for any network, weight and transform; "
     "batched evaluation equals one-by-one evaluation. Its gradient sets are "
     "the corresponding sums of network and norm gradients, and equilibria "
     "outside the state box are refused.",
     ["inputs", "configurations"],
     "All networks, equilibria, weights, transforms (absent, square, tall), "
     "states.",
     GUR + "A few networks and states are sampled.",
     ["lyapunov.py"],
     [("value", "lyapunov.py:LyapunovHybridLinearSystem.lyapunov_value"),
      ("gradient", "lyapunov.py:LyapunovHybridLinearSystem."
       "_lyapunov_gradient")])

prop("C20", "Positivity certificate bounds the candidate over the whole box",
     "The optimum of the positivity program equals the maximum over the state "
     "box of (margin times the l1 norm of the transformed error, minus the "
     "candidate's value), and it is attained at the reported state. Hence a "
     "non-positive optimum holds only if the candidate is at least the margin "
     "term at every state of the box, whatever bound methods, binary "
     "relaxation for warm start, or transforms are chosen.",
     ["inputs", "configurations"],
     "All networks, equilibria (inside or on the box's border), weights, "
     "transforms, boxes and bound methods.",
     GUR + "The maximum is over all states.",
     ["lyapunov.py"],
     [("program", "lyapunov.py:LyapunovHybridLinearSystem."
       "lyapunov_positivity_as_milp"),
      ("norm encoding", "lyapunov.py:LyapunovHybridLinearSystem."
       "add_state_error_l1_constraint")])

prop("C21", "Decrease certificate bounds the discrete-time Lyapunov decrease",
     "The optimum of the decrease program equals the maximum, over states of "
     "the box (and of the requested sublevel band), of the candidate's value "
     "at the next state minus its value at the state, plus the convergence "
     "term: rate times the value (with the direction chosen) or margin times "
     "the transformed error norm. It is attained at the reported state, and "
     "strengthening the program or relaxing then restoring its binaries does "
     "not change it.",
     ["inputs", "configurations"],
     "All systems, networks, transforms, convergence types, bands, bound "
     "methods and strengthening options.",
     GUR + "The maximum is over all states.",
     ["lyapunov.py"],
     [("pointwise", "lyapunov.py:LyapunovDiscreteTimeHybridSystem."
       "lyapunov_derivative"),
      ("program", "lyapunov.py:LyapunovDiscreteTimeHybridSystem."
       "lyapunov_derivative_as_milp"),
      ("strengthening", "lyapunov.py:LyapunovDiscreteTimeHybridSystem."
       "strengthen_lyapunov_derivative_as_milp")])

prop("C22", "Decrease certificate for network systems in continuous time",
     "For an autonomous or closed-loop network system in continuous time, the "
     "pointwise derivative lists every gradient choice times the velocity "
     "plus the convergence term. The decrease program's optimum equals the "
     "maximum of that quantity over the state box (and the value band, when "
     "given), attained at the reported state; the relaxed program contains "
     "it.",
     ["inputs", "configurations"],
     "All network dynamics, controllers, candidate networks, transforms, "
     "rates and value bands.",
     GUR + "The maximum is over all states and activations.",
     ["continuous_time_lyapunov.py", "relu_system.py", "feedback_system.py"],
     [("pointwise", "continuous_time_lyapunov.py:"
       "LyapunovContinuousTimeSystem.lyapunov_derivative"),
      ("program", "continuous_time_lyapunov.py:LyapunovContinuousTimeSystem."
       "lyapunov_derivative_as_milp")])

prop("C23", "Decrease certificate for piecewise-affine continuous time",
     "For an autonomous piecewise-affine continuous-time system, the "
     "pointwise derivative enumerates gradient choices times possible "
     "velocities plus the convergence term, and both forms of the decrease "
     "program have as optimum the maximum of that quantity over the box.",
     ["inputs", "configurations"],
     "All mode layouts, candidate networks, transforms and rates.",
     GUR + "The maximum is over all states, modes and activations.",
     ["continuous_time_lyapunov.py"],
     [("pointwise", "continuous_time_lyapunov.py:"
       "LyapunovContinuousTimeHybridSystem.lyapunov_derivative"),
      ("program", "continuous_time_lyapunov.py:"
       "LyapunovContinuousTimeHybridSystem.lyapunov_derivative_as_milp"),
      ("second program", "continuous_time_lyapunov.py:"
       "LyapunovContinuousTimeHybridSystem.lyapunov_derivative_as_milp2")])

prop("C24", "Sample losses are hinge losses of the certified quantities",
     "Each sample loss (positivity, decrease, barrier) is the requested "
     "reduction (mean, sum, maximum or 4-norm; optionally weighted) of the "
     "hinge of the very quantity the matching program maximises, shifted by "
     "the margin, evaluated at the given states and next states. It is zero "
     "iff every sample satisfies the condition with the margin.",
     ["inputs", "configurations"],
     "All samples, batch sizes, reductions, weights, margins, convergence "
     "types.",
     GUR + "A few sample sets with one reduction.",
     ["lyapunov.py", "continuous_time_lyapunov.py", "barrier.py", "utils.py"],
     [("positivity", "lyapunov.py:LyapunovHybridLinearSystem."
       "lyapunov_positivity_loss_at_samples"),
      ("decrease", "lyapunov.py:LyapunovDiscreteTimeHybridSystem."
       "lyapunov_derivative_loss_at_samples_and_next_states"),
      ("barrier", "barrier.py:DiscreteTimeBarrier."
       "derivative_loss_at_samples_and_next_states"),
      ("reduction", "utils.py:loss_reduction")])

prop("C25", "Region-of-attraction level is the boundary minimum of the value",
     "The region-of-attraction level reported for a candidate is the largest "
     "level whose sublevel set inside the verified box stays clear of the "
     "box's border and of states whose successor escapes: no state on the "
     "border of the box has a smaller value. A sublevel band constraint keeps "
     "exactly the states whose value lies in the band.",
     ["inputs", "configurations"],
     "All candidate networks, transforms, boxes, systems.",
     GUR + "The minimum is over the whole border.",
     ["lyapunov.py", "utils.py"],
     [("boundary", "lyapunov.py:LyapunovHybridLinearSystem."
       "_construct_milp_for_roa_boundary"),
      ("region", "lyapunov.py:LyapunovDiscreteTimeHybridSystem."
       "compute_region_of_attraction")])

prop("C26", "Barrier function: value and certificates",
     "The barrier candidate is the network output minus its output at the "
     "reference state plus a constant, batched or single. The safe/unsafe "
     "region programs' optimum is the extremum of that value over the given "
     "region (a box, its border, or any encoded set), and the decrease "
     "program's optimum is the maximum over the box of the one-step decrease "
     "condition; each is attained at the reported state.",
     ["inputs", "configurations"],
     "All networks, reference states, constants, regions, systems, bound "
     "methods.",
     GUR + "The extremum is over whole regions.",
     ["barrier.py"],
     [("value", "barrier.py:Barrier.value"),
      ("value program", "barrier.py:Barrier.value_as_milp"),
      ("decrease program", "barrier.py:DiscreteTimeBarrier."
       "derivative_as_milp")])

prop("C27", "State transforms are reproduced from their parametrisation",
     "For each parametrisation of the state transform (fixed, symmetric "
     "positive definite with a floor, singular-value with bounds, free), "
     "setting a value that it can represent and reading the transform back "
     "gives that value, and every transform read back for any parameter "
     "values satisfies the parametrisation's guarantee (minimum eigenvalue or "
     "singular values at or above the floor). Parameters exported after "
     "training (on their own or in a saved Lyapunov model) agree with the "
     "transform; a fixed transform exposes no "
     "trainable variable.",
     ["inputs", "configurations"],
     "All transform sizes (square or tall), values and floors.",
     GUR + "A few random matrices are sampled.",
     ["r_options.py"],
     [("SPD", "r_options.py:SearchRwithSPDOptions"),
      ("SVD", "r_options.py:SearchRwithSVDOptions"),
      ("free", "r_options.py:SearchRfreeOptions"),
      ("fixed", "r_options.py:FixedROptions")])

prop("C28", "Adversarial states found by the trainer are genuine violations",
     "The adversarial states returned with a certificate's reported optimum are "
     "states in the box (or region), with successors of the system, at which "
     "the certified quantity takes the value of the solver's pool entry, best "
     "first; the pool is filled as configured, and when only violating states "
     "are requested exactly its entries of positive value are returned. "
     "Clustering keeps the first of each run of consecutive states closer "
     "than the radius, and counts the states of each run.",
     ["inputs", "histories", "configurations"],
     "All systems, candidates, pool sizes, filter options, cluster radii.",
     GUR + "Only one system with default options.",
     ["train_lyapunov_barrier.py"],
     [("positivity", "train_lyapunov_barrier.py:Trainer.solve_positivity_mip"),
      ("decrease", "train_lyapunov_barrier.py:Trainer."
       "solve_lyap_derivative_mip"),
      ("cluster", "train_lyapunov_barrier.py:_cluster_adversarial_states")])

prop("C29", "Training loss is the sum of its enabled, weighted parts",
     "The training loss is the sum of the enabled terms (sample positivity, "
     "sample decrease, positivity and decrease certificates, boundary gap), "
     "each - and each barrier term - equal to its weight times the quantity "
     "it names and zero when disabled. Sample terms are over the most recent "
     "samples of the pool, extended by the adversarial states when asked; the "
     "reported certificate values are the optima of the programs solved. The "
     "gradient of the loss is the sum of the gradients of its weighted terms, "
     "and that of a sample term, or of a certificate recomputed at a fixed "
     "active set, is its derivative.",
     ["inputs", "configurations"],
     "All combinations of enabled terms and weights, samples and candidates.",
     GUR + "One combination is tested.",
     ["train_lyapunov_barrier.py"],
     [("loss", "train_lyapunov_barrier.py:Trainer.total_loss"),
      ("sample loss", "train_lyapunov_barrier.py:Trainer."
       "lyapunov_sample_loss"),
      ("barrier loss", "train_lyapunov_barrier.py:Trainer."
       "compute_barrier_loss")])

prop("C30", "Training declares success only with both certificates met",
     "Training reports success only in an iteration whose positivity and "
     "decrease optima for the current parameters are both within their "
     "tolerances, and then leaves the parameters at exactly those certified "
     "values; otherwise it stops at the iteration limit and reports failure. "
     "Every iteration without success takes exactly one optimisation update "
     "of all trainable parameters, including the control network and the "
     "state transform when trainable.",
     ["histories", "configurations"],
     "All runs: any sequence of certificate outcomes, iteration limits, "
     "trainable sets.",
     GUR + "Tests run a few iterations of one setup.",
     ["train_lyapunov_barrier.py"],
     [("loop", "train_lyapunov_barrier.py:Trainer.train"),
      ("parameters", "train_lyapunov_barrier.py:Trainer._training_params")],
     [("iteration, optima, parameters", "training state",
       "train_lyapunov_barrier.py:Trainer.train")])

prop("C31", "Adversarial training: sample pools, restarts and best parameters",
     "Adversarial training appends each iteration's adversarial states to the "
     "positivity and decrease pools in order and keeps at most the configured "
     "number of most recent samples; it reports success only when both "
     "certificates of the current parameters are within tolerance. Descent on "
     "samples ends with the parameters of the best sample loss seen, for all "
     "trainable networks and the state transform, and training continues from "
     "them with every parameter still trainable.",
     ["histories", "configurations"],
     "All runs: sequences of adversarial finds, pool limits, batch sizes, "
     "epochs, trainable sets.",
     GUR + "Tests run a few iterations of one setup.",
     ["train_lyapunov_barrier.py"],
     [("loop", "train_lyapunov_barrier.py:Trainer.train_adversarial"),
      ("descent", "train_lyapunov_barrier.py:Trainer."
       "_batch_descent_on_samples"),
      ("sample training", "train_lyapunov_barrier.py:Trainer."
       "train_lyapunov_on_samples")],
     [("sample pools", "states used for descent",
       "train_lyapunov_barrier.py:Trainer.train_adversarial")])

prop("C32", "Supervised fitting and gradient projection do what they report",
     "Projecting two loss gradients leaves the parameters with the sum, or "
     "with the requested one minus its component along the other (only when "
     "they conflict, for the conflict-dependent modes), over the whole "
     "parameter vector, whatever gradients were there before. Fitting to a "
     "cost succeeds only when an evaluated loss is within the tolerance, "
     "leaving the parameters of that loss and reporting it; otherwise it does "
     "the configured number of updates and reports the last evaluated loss. "
     "Batch fitting draws every training sample exactly once per epoch and "
     "updates all listed variables once per batch.",
     ["inputs", "histories", "configurations"],
     "All losses (aligned, orthogonal, opposing), modes, datasets, limits.",
     GUR + "One fixed example each.",
     ["train_utils.py", "utils.py", "train_lyapunov_barrier.py"],
     [("projection", "train_utils.py:project_gradient"),
      ("fit", "utils.py:train_approximator"),
      ("value fit", "train_lyapunov_barrier.py:TrainValueApproximator."
       "train_with_cost_to_go")])

prop("C33", "Line-search gradient descent takes a sufficient-decrease step",
     "Each step tries the geometric sequence of step sizes starting from "
     "the configured one along the momentum-adjusted, weight-decayed "
     "gradient direction, and stops at the first trial that meets the "
     "sufficient-decrease and minimal-improvement tests, or once the "
     "step size is no larger than the minimum; the parameters are left "
     "exactly at the last trial and the loss returned is the loss there. "
     "Trials start from the parameters before the step, momentum is "
     "updated once per step, and all parameters of a step move together.",
     ["inputs", "histories", "configurations"],
     "All losses, gradients, step-size settings, momentum and decay options, "
     "and sequences of steps.",
     "The existing test runs one regression problem and compares final "
     "losses, not the accepted step of each iteration.",
     ["line_search_gd.py"],
     [("step", "line_search_gd.py:LineSearchGD.step")],
     [("parameters, momentum, step size", "optimizer state",
       "line_search_gd.py:LineSearchGD.step")])

prop("C34", "Line-search Adam takes the Adam direction with accepted step",
     "Each step updates the first and second moment estimates exactly "
     "once from the current gradient (with weight decay, bias "
     "correction, and the AMSGrad maximum when enabled), and moves every "
     "parameter along the resulting Adam direction by the first step "
     "size of the geometric sequence whose loss passes the strict "
     "acceptance test, or by the last one tried once the step size is no "
     "larger than the minimum. The parameters are left exactly at the "
     "last trial, and the loss returned is the loss there.",
     ["inputs", "histories", "configurations"],
     "All losses, gradients, betas, options and sequences of steps.",
     "The existing test runs one regression problem and compares losses.",
     ["line_search_adam.py"],
     [("step", "line_search_adam.py:LineSearchAdam.step")],
     [("moments, step count, parameters", "optimizer state",
       "line_search_adam.py:LineSearchAdam.step")])

prop("C35", "Constant-control integration is the classical Runge-Kutta step",
     "Integrating with constant control evaluates the controller once, "
     "at the initial state, holds that control, and advances the state "
     "by exactly the requested number of classical fourth-order Runge- "
     "Kutta steps of the given step size, so that polynomial flows up to "
     "fourth order are reproduced exactly. It returns the final state "
     "and the control used, leaves the initial state untouched, and "
     "agrees for arrays and tensors.",
     ["inputs", "configurations"],
     "All dynamics, states, controls, durations and step sizes, with "
     "durations that are and are not multiples of the step.",
     "Two examples are compared to a reference solver with loose tolerances.",
     ["integrator.py"],
     [("integrate", "integrator.py:rk4_constant_control")])

prop("C36", "Rotation conversions: array and tensor versions and derivative",
     "The rotation matrix built from roll, pitch and yaw equals the yaw "
     "times pitch times roll rotations (hence is orthonormal with "
     "determinant one), with the same result for arrays and tensors. Its "
     "reported derivative is the derivative of every entry with respect "
     "to every angle.",
     ["inputs"],
     "All angles, both input kinds, all entries.",
     "Tests sample a few angles and compare one version with the other.",
     ["geometry_transform.py"],
     [("rotation", "geometry_transform.py:rpy2rotmat"),
      ("derivative", "geometry_transform.py:rpy2rotmat_gradient")])

prop("C37", "Encoders and decoders preserve shape, batch independence and range",
     "For every available encoder/decoder (linear, and the two "
     "convolutional ones), encoding a batch gives one mean and one log- "
     "variance vector of the latent size per sample, and decoding gives "
     "a batch of the original sample shape with values in the unit "
     "interval, for every supported image size, channel count and latent "
     "size. Encoding and decoding are independent across the samples of "
     "a batch in evaluation mode.",
     ["configurations", "inputs"],
     "All pairs, latent sizes, supported image shapes, batch sizes.",
     "One image shape and latent size is tested, shapes only.",
     ["encoders.py"],
     [("pairs", "encoders.py:get_encoder"),
      ("encoders", "encoders.py"), ])

prop("C38", "Simulator samples pair states with their true successors",
     "Every sample pairs a state drawn within the requested bounds with "
     "the state the simulator reaches after exactly the requested "
     "duration from it, coordinates (all joint positions then "
     "velocities, or pose then velocities) in one order; rollouts are "
     "the consecutive states of one simulation. Images of a sample are "
     "the renderings of its own two moments in the requested (square) "
     "format, datasets have the requested size with each row one sample, "
     "and added noise and loaders leave pairs aligned.",
     ["histories", "inputs", "configurations"],
     "All robots (any number of joints, rigid bodies), bounds, time steps, "
     "image formats, dataset and rollout lengths.",
     "Tests check shapes on one robot with one joint coordinate order.",
     ["pybullet_data_generation.py"],
     [("sample", "pybullet_data_generation.py:PybulletSampleGenerator."
       "generate_sample"),
      ("rollout", "pybullet_data_generation.py:PybulletSampleGenerator."
       "generate_rollout"),
      ("dataset", "pybullet_data_generation.py:PybulletSampleGenerator."
       "generate_dataset")])

prop("C39", "Piecewise-linear Lyapunov programs admit exactly valid functions",
     "The constraints built to search for a piecewise-linear Lyapunov "
     "function on given cells admit exactly the coefficient choices that are "
     "continuous across shared vertices, at least the lower bound of the norm "
     "at every vertex, and decreasing by the required amount for every "
     "declared transition at every vertex of the transition's region.",
     ["inputs", "configurations"],
     "All cell layouts, vertices, transitions, coefficients and rates.",
     "Needs an absent solver; only two systems are tested.",
     ["simple_pwl_lyapunov.py"],
     [("constraints", "simple_pwl_lyapunov.py:SimplePWLLyapunov")])

prop("C40", "Spring-mass hopper: phases, guards, energy and maps",
     "In simulation flight is ballistic and ends at touchdown (foot on the "
     "ground, falling), stance pivots about a fixed foot and ends at lift-off "
     "(leg back at rest length) or when the leg lies flat, each further "
     "flight starts at the apex after lift-off, the run ends where there is "
     "none, and energy and time are kept across phases and transitions. The "
     "apex map and time to touchdown agree with the simulation, and refuse "
     "exactly where there is no such hop or touchdown. Reported gradients "
     "are the derivatives of these maps, and the linear model on a stepping "
     "stone reproduces the hop, its duration and the slack of each "
     "condition at first order.",
     ["inputs", "histories"],
     "All initial states, leg angles, stepping-stone layouts and numbers of "
     "hops.",
     GUR + "Its module imports the optimisation stack; a few states are "
     "sampled.",
     ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py"],
     [("simulate", "spring_loaded_inverted_pendulum.py:SLIP.simulate"),
      ("touchdown", "spring_loaded_inverted_pendulum.py:SLIP."
       "touchdown_transition"),
      ("apex map", "spring_loaded_inverted_pendulum.py:SLIP.apex_map")])

prop("C41", "Training log keeps every loss in order and counts training steps",
     "A training log keeps every training and every validation loss "
     "vector in the order recorded and apart from each other, and for "
     "each vector recorded writes its components (or only the first, if "
     "so configured), under its prefix, at the step equal to the number "
     "of training vectors recorded so far. A copy starts with the same "
     "history and afterwards shares nothing with the original except, "
     "when requested, the writer.",
     ["histories"],
     "All sequences of record and write operations.",
     "No test touches it.",
     ["training_log.py"],
     [("log", "training_log.py")])

prop("C42", "Learned-dynamics training: losses, rollouts, schedule, saving",
     "The dynamics loss is the mean prediction error (of states, or of "
     "decoded current and next images plus divergence and equilibrium terms) "
     "over all samples, rollouts repeatedly apply the learned dynamics with "
     "the error of each step, and validation is the mean over samples. "
     "Lyapunov terms carry their weights, count samples inside the stable "
     "box, and the program terms run exactly on due updates with the current "
     "thresholds; adversarial states are those of positive objective. Each "
     "batch moves the parameters by its own gradients, validation moves "
     "nothing, and saving and reloading reproduces the learner.",
     ["inputs", "histories", "configurations"],
     "All networks, datasets, horizons, weights and options.",
     GUR + "One setup is tested.",
     ["dynamics_learning.py"],
     [("state-space", "dynamics_learning.py:StateSpaceDynamicsLearning"),
      ("latent", "dynamics_learning.py:LatentSpaceDynamicsLearning")])

prop("C43", "Value-function training against adversarial samples",
     "Training a value function with adversarial samples trains on the "
     "samples drawn from inside the requested sets and evaluates against the "
     "true optimal cost of each sample, keeping the parameters of the trained "
     "network in the exported state.",
     ["histories", "inputs"],
     "All runs and options.",
     "Nothing exercises it.",
     ["train_value.py", "model_bounds.py"],
     [("train", "train_value.py:AdversarialWithBaseline.train")])

prop("C44", "Vehicle models: dynamics, equilibria and linearisation agree",
     "For each modelled vehicle (pendulum, pole with ball, planar and 3-D "
     "quadrotor, rocket, unicycle and car models) array and tensor dynamics "
     "agree, the stated equilibrium has zero derivative, mechanical relations "
     "(velocity is the derivative of position; energy balance where actuated "
     "power is zero) hold, and the reported linearisation is the derivative "
     "of the dynamics.",
     ["inputs"],
     "All states and controls.",
     "Tests compare a few states with hand-written formulas or differences.",
     ["examples/rocket/rocket.py", "examples/pendulum/pendulum.py",
      "examples/quadrotor2d/quadrotor_2d.py",
      "examples/quadrotor3d/quadrotor.py", "examples/pole/pole.py",
      "examples/car/acceleration_car.py", "examples/car/unicycle.py"],
     [("rocket", "examples/rocket/rocket.py"),
      ("pendulum", "examples/pendulum/pendulum.py"),
      ("quadrotor", "examples/quadrotor2d/quadrotor_2d.py"),
      ("quadrotor3d", "examples/quadrotor3d/quadrotor.py"),
      ("pole", "examples/pole/pole.py")])

prop("C45", "Learned vehicle models: step, rest, encoding and closed loop",
     "Each learned vehicle model (car, unicycle, pendulum, pole, planar and "
     "3-D quadrotor) steps by its documented formula, keeps its equilibrium "
     "at rest and treats batches row by row. The encoding pinned at a state "
     "and input admits exactly the model's own step within the stated "
     "bounds, reports the variables it created, and can be joined with a "
     "controller network into a closed loop, relaxed or not, whose only "
     "solution is the loop's own next state.",
     ["inputs", "configurations"],
     "All networks, boxes, states and inputs.",
     "The examples' own tests sample a few states; several are never joined.",
     ["examples/car/acceleration_car.py", "examples/car/unicycle.py",
      "examples/car/unicycle_feedback_system.py",
      "examples/quadrotor3d/quadrotor.py",
      "examples/quadrotor3d/quadrotor_feedback_system.py"],
     [("car", "examples/car/acceleration_car.py"),
      ("unicycle", "examples/car/unicycle.py"),
      ("unicycle-loop", "examples/car/unicycle_feedback_system.py"),
      ("quadrotor3d", "examples/quadrotor3d/quadrotor.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..",
                       "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
