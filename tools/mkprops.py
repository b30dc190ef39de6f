"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
SC="pytspl/simplicial_complex/simplicial_complex.py"; SB="pytspl/simplicial_complex/scbuilder.py"
EIG="pytspl/decomposition/eigendecomposition.py"; HD="pytspl/decomposition/hodge_decomposition.py"
BF="pytspl/filters/base_filter.py"; LS="pytspl/filters/ls_filter_design.py"; GR="pytspl/filters/grid_based_filter_design.py"
CH="pytspl/filters/chebyshev_filter_design.py"; EF="pytspl/filters/edge_flow_denoising.py"; ST="pytspl/filters/simplicial_trend_filter.py"
NR="pytspl/io/network_reader.py"; GEN="pytspl/io/sc_generator.py"; TL="pytspl/io/data_loaders/transportation_loader.py"; DL="pytspl/io/dataset_loader.py"
TR="pytspl/hogde_gp/hodge_gp_trainer.py"; KS="pytspl/hogde_gp/kernel_serializer.py"; KN="pytspl/hogde_gp/kernels.py"; PL="pytspl/plot/plot.py"
FX=["pytspl/hogde_gp/forex/diffusion.py","pytspl/hogde_gp/forex/diffusion_non_hc.py","pytspl/hogde_gp/forex/matern.py","pytspl/hogde_gp/forex/matern_non_hc.py","pytspl/hogde_gp/forex/laplacian.py"]
FEW="the tests sample two or three fixed complexes (mostly the 7-node paper example, whose edges are all stored low-to-high)"
p("C01","Incidence matrices are the boundary operators of the stored complex",
 "For every complex with nodes 0..n-1, pairwise distinct undirected edges and triangles whose three edges are present, the node-edge incidence matrix has one column per edge in stored order holding -1 at the edge's first node, +1 at its second node and 0 elsewhere. The edge-triangle incidence matrix has one column per triangle holding +1 or -1 on that triangle's three edges and 0 elsewhere, with signs that agree with a single traversal direction of the triangle relative to the direction in which each edge is stored. This holds however edges are directed or ordered, whatever the vertex order of a triangle, and the shapes, identity matrix, simplex listing and shape/dimension summary agree with the stored simplices.",
 ["inputs"],"all complexes: any number of nodes, edges in any direction and order, any triangle vertex order, with or without triangles",
 "unit tests compare against literal matrices of one 7-node example; "+FEW,
 [SC],[("edges_to_B1",SC+":SimplicialComplex.edges_to_B1"),("triangles_to_B2",SC+":SimplicialComplex.triangles_to_B2"),("incidence_matrix",SC+":SimplicialComplex.incidence_matrix")],
 [("B1","node-edge incidence","SimplicialComplex.B1"),("B2","edge-triangle incidence","SimplicialComplex.B2")],["SimplicialComplex.incidence_matrix","SimplicialComplex.shape"])
p("C02","The boundary of a boundary is zero",
 "For every valid complex the product of the node-edge and edge-triangle incidence matrices is the zero matrix. Consequently the curl of every gradient flow and the divergence of every curl flow vanish, and the products of the lower and upper edge Laplacians in either order are zero.",
 ["inputs"],"all complexes with any stored edge directions and triangle vertex orders; all node potentials and triangle potentials",
 "tests check orthogonality on a single example where every edge is stored low-to-high; a sign error for reversed edges is invisible there",
 [SC],[("orientation of triangles relative to stored edges",SC+":SimplicialComplex.triangles_to_B2"),("edges_to_B1",SC+":SimplicialComplex.edges_to_B1")],(),["SimplicialComplex.incidence_matrix","SimplicialComplex.get_curl","SimplicialComplex.get_divergence"])
p("C03","Laplacians and adjacency follow from the incidence matrices",
 "For every complex with incidence matrices B1 and B2, the graph Laplacian and the rank-0 upper and Hodge Laplacians are B1 B1^T, the lower Laplacian is B1^T B1 (rank 1) or B2^T B2 (rank 2), the rank-1 upper Laplacian is B2 B2^T, the rank-1 Hodge Laplacian is the sum of lower and upper, the rank-2 Hodge Laplacian is B2^T B2, and any other rank is rejected with ValueError. The adjacency matrix has 1 exactly at the node pairs joined by an edge, in both directions. Results depend only on the complex and the arguments, not on which methods were called before.",
 ["inputs","histories"],"all complexes, all integer ranks, all call histories on one or several complexes",
 "tests compare literal matrices of one example for a few ranks and never call methods repeatedly or on several complexes of equal shape",
 [SC],[("laplacian methods",SC+":SimplicialComplex.hodge_laplacian_matrix"),("adjacency_matrix",SC+":SimplicialComplex.adjacency_matrix")],(),["SimplicialComplex.*_laplacian_matrix","SimplicialComplex.adjacency_matrix"])
p("C04","k-step shifting applies the Laplacian exactly k times",
 "Lower (upper) shifting a flow by k >= 1 steps returns the k-th power of the lower (upper) Laplacian applied to the flow, k-step shifting returns the sum of the lower and the upper k-step shifts, and the input flow is left unchanged. Shifting is linear in the flow and shifting by j and then by k steps equals shifting by j+k steps.",
 ["inputs"],"all complexes, flows and step counts k >= 1",
 "tests only use 1 and 2 steps on one example",
 [SC],[("apply_lower_shifting",SC+":SimplicialComplex.apply_lower_shifting"),("apply_upper_shifting",SC+":SimplicialComplex.apply_upper_shifting"),("apply_k_step_shifting",SC+":SimplicialComplex.apply_k_step_shifting")],(),["SimplicialComplex.apply_*_shifting"])
p("C05","Hodge decomposition is the orthogonal three-way split of a flow",
 "For every complex and flow, the unrounded gradient, curl and harmonic components sum to the flow; the gradient component is the orthogonal projection of the flow onto gradients of node potentials, the curl component its projection onto boundaries of triangle potentials, and the harmonic component has zero divergence and zero curl, so the three are mutually orthogonal. When rounding is requested the result is the unrounded component rounded to the requested number of decimals, and an unknown component name is rejected with ValueError.",
 ["inputs"],"all complexes (including ones without triangles, disconnected ones, reversed edges), all flows, all rounding options",
 "tests compare rounded literals for one flow on one example",
 [HD,SC],[("least-squares projections",HD+":get_gradient_flow"),("get_curl_flow",HD+":get_curl_flow"),("get_harmonic_flow",HD+":get_harmonic_flow"),("dispatch",SC+":SimplicialComplex.get_component_flow")],(),["SimplicialComplex.get_component_flow"])
p("C06","Component eigenpairs partition the spectrum correctly",
 "For every complex and tolerance, the eigenpairs returned for a component are orthonormal eigenvectors with their own eigenvalues, in matching order: gradient pairs belong to the lower Laplacian with eigenvalue above the tolerance, curl pairs to the upper Laplacian with eigenvalue above the tolerance, and harmonic pairs to the Hodge Laplacian with eigenvalue at or below the tolerance. No qualifying eigenpair is dropped or duplicated, so with the default tolerance and spectra separated from it the three counts add up to the number of edges. An unknown component name is rejected with ValueError.",
 ["inputs"],"all symmetric Laplacians/complexes, all tolerances >= 0",
 "tests check counts and literal values for one complex and one tolerance",
 [EIG,SC],[("get_eigendecomposition",EIG+":get_eigendecomposition"),("selection by tolerance",EIG+":get_harmonic_eigenpair"),("dispatch",SC+":SimplicialComplex.get_component_eigenpair")],(),["SimplicialComplex.get_component_eigenpair"])
p("C07","Divergence, curl, embeddings and total variation match their definitions",
 "For every complex and flow, the divergence is B1 f, the curl is B2^T f, and the simplicial embeddings are, in the order harmonic, curl, gradient, the coefficients of the flow on the respective component eigenvectors. The total variation vector holds the graph Laplacian's quadratic form at each of its eigenvectors, that is its eigenvalues. All are linear in the flow where a flow is given and none modifies the flow.",
 ["inputs"],"all complexes and flows",
 "tests check literals on one example; total variation is not tested through the complex at all",
 [SC,EIG],[("get_divergence",SC+":SimplicialComplex.get_divergence"),("get_curl",SC+":SimplicialComplex.get_curl"),("get_simplicial_embeddings",SC+":SimplicialComplex.get_simplicial_embeddings"),("get_total_variance",EIG+":get_total_variance")],(),["SimplicialComplex.get_divergence","SimplicialComplex.get_curl","SimplicialComplex.get_simplicial_embeddings","SimplicialComplex.get_total_variance"])
p("C08","Component masks mark the right frequencies",
 "For every complex, the ideal coefficients of a component are 0/1 vectors over the Hodge Laplacian's ascending spectrum with a 1 exactly at the frequencies of that component. The masks of the harmonic, curl and gradient components are therefore disjoint, add up to all ones and contain as many ones as the component has eigenvectors; an unknown component is rejected with ValueError.",
 ["inputs"],"all complexes",
 "tests check one literal mask on one complex",
 [BF],[("get_component_coefficients",BF+":BaseFilter.get_component_coefficients")],(),["BaseFilter.get_component_coefficients"])
p("C09","Filter building blocks: operators, true signals, errors, transfer function",
 "For every filter object the operator chosen by name is the Hodge ('L1'), lower ('L1L') or upper ('L1U') edge Laplacian of its complex and any other name is rejected with ValueError; the true signal of a component is the unrounded Hodge component of the given flow. The reported error of an estimate is the Euclidean norm of estimate minus truth divided by the norm of the truth, and the logistic transfer function is 1/(1+exp(-steep(x-cutoff))). Power iteration returns, up to machine epsilon, the normalised image of the all-ones vector under the requested number of applications of the operator.",
 ["inputs","histories"],"all complexes, flows, names, cut-offs and iteration counts",
 "tests check one literal each",
 [BF],[("get_p_matrix",BF+":BaseFilter.get_p_matrix"),("get_true_signal",BF+":BaseFilter.get_true_signal"),("calculate_error_NRMSE",BF+":BaseFilter.calculate_error_NRMSE"),("power_iteration",BF+":BaseFilter.power_iteration")],(),["BaseFilter.*"])
p("C10","LS filters are least-squares polynomials of the right Laplacian",
 "For every complex, flow, component and size L >= 1, the LS filter recorded in the history is the polynomial of degree below L in the Hodge Laplacian (type one) or in the component's own lower/upper Laplacian (type two) whose frequency response is the least-squares fit, over the (distinct, for type two) eigenvalues, of the component's ideal 0/1 response. The recorded estimate is that filter applied to the flow, and for every size l+1 up to L row l of the recorded frequency responses and errors is what the filter of that size yields. Type two rejects components other than gradient and curl with ValueError.",
 ["inputs","histories"],"all complexes, flows, components, sizes L and tolerances, and repeated use of one filter object",
 "tests check literals for one complex and a few L",
 [LS,BF],[("filter construction",LS+":LSFilterDesign._apply_filter"),("type one",LS+":LSFilterDesign.subcomponent_extraction_type_one"),("type two",LS+":LSFilterDesign.subcomponent_extraction_type_two")],[("history","results of the last run","BaseFilter.history")],["LSFilterDesign.history"])
p("C11","Grid-based filters are least-squares polynomials fitted on the sampled grid",
 "For every complex and flow, a grid-based filter of size L is the polynomial of degree below L in the chosen operator whose values are the least-squares fit, on the requested number of equally spaced points from 0 to the power-iteration estimate of the largest eigenvalue, of the target response: 1/(1+mu x) for denoising (one point per edge) and the logistic function for subcomponent extraction. The recorded estimate is the filter applied to the flow, and row l of the recorded frequency responses and errors is what the filter of size l+1 yields, the error being relative to the given true signal (denoising) or to the Hodge component (extraction).",
 ["inputs","histories"],"all complexes, flows, operators, sizes, sample counts and parameters, and repeated use of one filter object",
 "tests check literals for one complex",
 [GR,BF],[("_apply_filter",GR+":GridBasedFilterDesign._apply_filter"),("_sample_grid_points",GR+":GridBasedFilterDesign._sample_grid_points"),("denoise",GR+":GridBasedFilterDesign.denoise"),("subcomponent_extraction",GR+":GridBasedFilterDesign.subcomponent_extraction")],[("history","results of the last run","BaseFilter.history")],["GridBasedFilterDesign.history"])
p("C12","Chebyshev filters are truncated Chebyshev expansions of the operator",
 "For every complex, coefficient sequence c and scale alpha, the Chebyshev filter of a given order is the sum over k below the order (and below the number of coefficients) of c_k T_k((P - alpha I)/alpha), where T_k is the k-th Chebyshev polynomial and P the chosen operator; alpha is half the mean ratio estimate of the largest eigenvalue after power iteration. The last entry of the recorded filters is the filter of full order, the recorded estimates, errors and spectra are those of the recorded filters, and the ideal frequency filter is U diag(mask) U^T for the Hodge eigenvectors U.",
 ["inputs"],"all complexes, operators, coefficient sequences, scales and orders",
 "the only tests with values need an optional package and use one complex",
 [CH,BF],[("recursion",CH+":ChebyshevFilterDesign._chebyshev_filter_approximate"),("get_chebyshev_frequency_approx",CH+":ChebyshevFilterDesign.get_chebyshev_frequency_approx"),("apply",CH+":ChebyshevFilterDesign.apply"),("get_alpha",CH+":ChebyshevFilterDesign.get_alpha")],[("history","results of the last run","BaseFilter.history")],["ChebyshevFilterDesign.history","ChebyshevFilterDesign.get_chebyshev_frequency_approx"])
p("C13","Edge-flow denoising is the regularised inverse filter for every mu",
 "For every complex, noisy flow, true flow, operator P and non-empty list of mu >= 0, row i of the recorded errors and frequency responses belongs to the filter (I + mu_i P)^-1: the error is the relative error of that filter's output against the true flow, the frequency response is the diagonal of the filter in P's eigenbasis. The recorded filter and estimate are those of the last mu, and the inputs are not modified.",
 ["inputs","histories"],"all complexes, flows, operators and mu lists, and repeated use of one filter object",
 "tests check literals for one complex and two mu lists",
 [EF,BF],[("denoise",EF+":EdgeFlowDenoising.denoise")],[("history","results of the last run","BaseFilter.history")],["EdgeFlowDenoising.history"])
p("C14","General filters split a flow into three parts that add up to it",
 "For every complex, flow and sizes L1, L2 >= 0, the harmonic, curl and gradient estimates returned (in this order) by a general LS or grid-based filter add up to the flow; the gradient (curl) estimate equals what the corresponding single-component extraction of size L1 (L2) yields and is zero when that size is 0. The history keeps the complete records of the two extractions separately under L1 and L2 (None for a skipped one), and a run does not change records obtained from earlier runs.",
 ["inputs","histories"],"all complexes, flows, sizes including 0, and repeated use of one filter object",
 "tests check one literal and that the keys exist; they never compare the two records or rerun a filter",
 [LS,GR,BF],[("LS general_filter",LS+":LSFilterDesign.general_filter"),("grid general_filter",GR+":GridBasedFilterDesign.general_filter"),("history reset",BF+":BaseFilter._reset_history")],[("history","records per extraction","BaseFilter.history")],["general_filter","history"])
p("C15","Trend filters use the right shift operator, noise level and regulariser",
 "For every complex and order n >= 0 the trend-filter shift operator for divergence (curl) is B1 times the n/2-th power of the lower Laplacian (B2^T times that of the upper Laplacian) for even n and the (n+1)/2-th power of the lower (upper) Laplacian for odd n; negative orders and, in the denoisers, unknown components raise ValueError. For SNR s in dB the noise amplitude is ||f|| / 10^(s/10) / number of edges. The l2 denoiser applies (I + mu L)^-1 with the lower Laplacian for divergence and the upper one for curl to the noisy flow, the interpolator keeps the sampled flow values, and both report per-realisation outputs together with the mean error, correlation and divergence/curl norm over realisations.",
 ["inputs"],"all complexes, flows, orders, components, SNR grids, ratios and realisation counts",
 "no trend-filter test can run in this repository: their dataset misses a file",
 [ST],[("get_shift_operator",ST+":SimplicialTrendFilter.get_shift_operator"),("get_power_noise",ST+":SimplicialTrendFilter.get_power_noise"),("denoising_l2_regularizer",ST+":SimplicialTrendFilter.denoising_l2_regularizer"),("interpolation_l1_regularizer",ST+":SimplicialTrendFilter.interpolation_l1_regularizer")],[("history","averaged results","SimplicialTrendFilter.history")],["SimplicialTrendFilter.history","get_shift_operator"])
p("C16","Reading edge tables keeps every edge once, with its own features",
 "Reading a TNTP or CSV edge table yields nodes 0..max id and exactly one edge per unordered node pair of the table, in the direction of its first row, sorted; ids are shifted by one exactly when the table is one-based. The features of every edge are the non-endpoint (TNTP) or selected (CSV) columns of the first row that describes that edge, coordinates map each node id to its own point, and flow tables are returned as stored (empty if the file is missing).",
 ["inputs"],"all edge tables: any row order, reversed and repeated rows, zero- or one-based ids, any feature columns",
 "tests check counts and a few literals of shipped files, never that features belong to their edge",
 [NR],[("_extract_nodes_edges",NR+":_extract_nodes_edges"),("read_tntp",NR+":read_tntp"),("read_csv",NR+":read_csv"),("read_coordinates",NR+":read_coordinates")],(),["read_tntp","read_csv","read_coordinates","read_flow"])
p("C17","Reading incidence files reproduces the stored complex",
 "Reading a pair of incidence-matrix files yields the edges in the column order and direction of the node-edge file, so that the node-edge matrix of the resulting complex equals the file, and for each triangle the sorted set of the nodes of its three edges, in file order, so that the edge-triangle matrix of the resulting complex equals the file up to one sign per triangle. Writing the incidence matrices of any complex with at least one edge and one triangle and reading them back gives the same complex.",
 ["inputs"],"all valid incidence-matrix pairs, in any edge order and direction",
 "tests check shipped files only, whose edges happen to be sorted",
 [NR],[("read_B1_B2",NR+":read_B1_B2"),("read_B2",NR+":read_B2")],(),["read_B1_B2"])
p("C18","The builder fills in exactly the right triangles",
 "For every graph, building with all 2-simplices adds each 3-clique exactly once as a sorted triple, and nothing else; building with the distance condition adds exactly those 3-cliques all of whose three edges have a known distance strictly below the threshold, in whichever direction the edges are stored. Explicitly given triangles are used as given, and nodes, edges and features are passed on unchanged.",
 ["inputs"],"all graphs, edge directions, distance columns, thresholds and explicit triangle lists",
 "tests check counts on two examples whose edges are stored low-to-high",
 [SB],[("triangles",SB+":SCBuilder.triangles"),("triangles_dist_based",SB+":SCBuilder.triangles_dist_based"),("to_simplicial_complex",SB+":SCBuilder.to_simplicial_complex")],(),["SCBuilder.triangles","SCBuilder.to_simplicial_complex"])
p("C19","Loaded transportation flows are net flows of their edges",
 "For every transportation dataset, the flow of each edge of the complex is the table's volume in the edge's direction minus the volume in the opposite direction (0 if absent), keyed by that edge with zero-based ids; a missing flow table gives an empty mapping. Every dataset that can be listed loads to a complex whose nodes all have coordinates, an unknown dataset name is rejected with ValueError, and flows shipped as vectors are attached to the edges in the stored edge order.",
 ["inputs","configurations"],"all flow tables and edge lists; all listed datasets",
 "tests load a few datasets and check sizes only",
 [TL,DL],[("load_flow_transportation",TL+":load_flow_transportation"),("load_dataset",DL+":load_dataset")],(),["load_dataset","load_flow_transportation"])
p("C20","Random complexes are valid and determined by their arguments",
 "For all arguments the generated complex has exactly the requested nodes, a distance in [0,1) for every edge, coordinates for every node, and as triangles exactly the 3-cliques whose three distances are below the threshold. Two calls with equal arguments return equal complexes, features and coordinates, whatever happened in the process before, including other uses of the global random generators.",
 ["inputs","histories"],"all sizes, probabilities, thresholds and seeds; any prior history of random number use",
 "the test only checks sizes of a single draw",
 [GEN,SB],[("generate_random_simplicial_complex",GEN+":generate_random_simplicial_complex")],(),["generate_random_simplicial_complex"])
p("C21","Gaussian-process kernels are the documented spectral functions",
 "For every complex and positive hyperparameters, each implemented kernel evaluated at edge indices x1, x2 is the corresponding block of U_H k0 U_H^T + U_G k1 U_G^T + U_C k2 U_C^T, weighted per component in the Hodge-compositional variants, where each spectral weight (diffusion exp(-kappa lambda), Matern (2 mu/kappa^2 + lambda)^-mu, Laplacian 1/lambda, and the documented harmonic weights) uses that component's own eigenvalues and parameters and the non-compositional variants share one parameter set. The matrices are symmetric positive semidefinite, diag=True returns the diagonal of the full evaluation, and unknown or unimplemented kernel types and datasets are rejected with ValueError.",
 ["inputs"],"all complexes, hyperparameter values and index sets",
 "tests only check which class is returned",
 FX+[KS,KN],[("forward / _eval_covar_matrix",FX[2]+":MaternKernelForex._eval_covar_matrix"),("KernelSerializer",KS+":KernelSerializer._get_serializer")],(),["Kernel.forward","KernelSerializer.serialize"])
p("C22","GP training data is split and normalised without leakage",
 "For every complex, target vector, ratio and seed, the train and test inputs are disjoint edge indices that together cover all edges, every target stays paired with its own edge, the split is determined by the seed, and normalisation subtracts the mean and divides by the standard deviation of the training targets only, on all three target vectors alike. Laplacians, incidence matrices and eigenpairs are handed over in the documented order (full, lower, upper; harmonic, gradient, curl vectors and then values), and querying parameters or building the posterior kernel before training raises ValueError.",
 ["inputs","histories"],"all complexes, targets, ratios, seeds; any order of trainer calls",
 "tests check shapes of one split",
 [TR],[("train_test_split",TR+":HodgeGPTrainer.train_test_split"),("normalize_data",TR+":HodgeGPTrainer.normalize_data"),("get_eigenpairs",TR+":HodgeGPTrainer.get_eigenpairs"),("build_matern_kernel",TR+":HodgeGPTrainer.build_matern_kernel")],[("model","trained model or None","HodgeGPTrainer.model")],["HodgeGPTrainer.*"])
p("C23","Queries do not change the complex, the flow or earlier results",
 "No query, decomposition, filter run or shift modifies the complex it works on or the arrays and containers passed to it, and changing a returned matrix or array in place does not change what later calls return. Repeating a deterministic call with equal arguments therefore gives equal results, whatever was called in between and whichever other complexes exist in the process.",
 ["inputs","histories"],"all sequences of public calls on one or several complexes and filter objects",
 "tests call each method once on module-wide fixtures and never look at the arguments afterwards",
 [SC,EIG,HD,BF,LS,GR,EF,CH],[("methods recompute from B1/B2 and copy",SC+":SimplicialComplex.incidence_matrix"),("get_eigendecomposition",EIG+":get_eigendecomposition")],[("nodes, edges, triangles, features, B1, B2","the complex","SimplicialComplex")],["all public methods"])
p("C24","Plots show every value on its own simplex",
 "For every complex, coordinates and edge flow, drawing edges draws exactly the edges of the flow mapping (all edges of the complex if none is given), each coloured by its own value, between the coordinates of its own end nodes, and fills exactly the complex's triangles; drawing nodes draws each node, also one without edges, at its own coordinates with its own value in the given colour map, on the axes it is given with its label; edge labels show each edge's own value at a position determined by its own end nodes. A flow vector is turned into an edge mapping in stored edge order. Drawing the Hodge decomposition or eigenvectors of a component draws one such network per component or requested eigenvector, each with its own flow.",
 ["inputs"],"all complexes, coordinates, flow mappings in any key order, and options",
 "tests only check that something was drawn",
 [PL],[("draw_sc_edges",PL+":SCPlot.draw_sc_edges"),("create_edge_flow",PL+":SCPlot.create_edge_flow"),("draw_edge_labels",PL+":SCPlot.draw_edge_labels")],(),["SCPlot.*"])
p("C25","Faces and feature lookups return exactly what is stored",
 "For every simplex of two or more distinct vertices, the faces are exactly the sorted vertex tuples obtained by leaving out one vertex, each once, in sorted order. Looking up an edge feature by name returns that feature's value for every edge and nothing else, an unknown name raises KeyError, and without a name the full feature mapping is returned.",
 ["inputs"],"all simplices in any vertex order; all feature mappings and names",
 "tests check one triangle's faces",
 [SC],[("get_faces",SC+":SimplicialComplex.get_faces"),("get_edge_features",SC+":SimplicialComplex.get_edge_features")],(),["SimplicialComplex.get_faces","SimplicialComplex.get_edge_features"])
if __name__=="__main__":
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
    open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
    print(len(P))
