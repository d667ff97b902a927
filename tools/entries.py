C = "constraint-based search, "
prop("C01", "PC with correct independence answers returns exactly the true equivalence class",
     "Whatever the data-generating DAG, when every conditional-independence answer PC receives is the true d-separation answer, the returned graph is exactly the completed partially directed graph (CPDAG) of that DAG. This holds for every option combination of the search (stable or not, every collider rule, every priority rule), for every order and naming of the variables, and for data whose sample partial correlations vanish exactly where the DAG says so. Separating sets reported by the search really separate their pair.",
     ["inputs", "configurations"], "all DAGs (random and all small ones exhaustively), all option combinations, all variable orders",
     "The tests run PC on a few fixed benchmark networks with one or two configurations and compare with stored results; they cannot cover all DAGs, rules and priorities.",
     ["causallearn/search/ConstraintBased/PC.py", "causallearn/utils/PCUtils/SkeletonDiscovery.py", "causallearn/utils/PCUtils/UCSepset.py", "causallearn/utils/PCUtils/Meek.py"],
     [("skeleton discovery", "SkeletonDiscovery.skeleton_discovery"), ("unshielded colliders", "UCSepset.uc_sepset/maxp/definite_maxp"), ("Meek rules", "Meek.meek/definite_meek")],
     "runtime monitoring: instrumented d-separation oracle plugged into the CI-test registry, output compared with an independent CPDAG model",
     "Exploration: hundreds (quick) to tens of thousands (thorough) of DAGs x option combinations up to 9 variables; trusts the reference d-separation/CPDAG model, itself cross-checked by brute force.")
prop("C02", "PC justifies every decision by the test answers it received, even wrong ones",
     "For every sequence of independence answers, right or wrong, PC removes an adjacency only if some answer accepted independence given a set drawn from current neighbours of the pair, and keeps one only if every conditioning set within the final neighbourhoods of either end (up to a depth limit) was tested and rejected. The stable variant does not depend on variable order, the stored separating sets are the ones that accepted, orientations follow from the separating sets and the collider and orientation rules, and the search always terminates with each pair in one well-formed state.",
     ["inputs", "configurations", "histories"], "all answer functions of the independence test (noisy, contradictory, adversarial), all significance levels, all option combinations, all variable orders",
     "Tests only see answers produced by a few data sets; contradictory answer patterns that trigger the rare code paths (conflicting colliders, cycles) are not sampled.",
     ["causallearn/search/ConstraintBased/PC.py", "causallearn/utils/PCUtils/SkeletonDiscovery.py", "causallearn/utils/PCUtils/UCSepset.py", "causallearn/utils/PCUtils/Meek.py", "causallearn/graph/GraphClass.py"],
     [("removal and bookkeeping of separating sets", "SkeletonDiscovery.skeleton_discovery"), ("priority rules", "UCSepset.uc_sepset"), ("orientation propagation", "Meek.meek")],
     "runtime monitoring: offline trace checker over the recorded log of independence queries and answers of each run",
     "Exploration over randomly flipped oracles; the trace checker re-derives every removal, retention and orientation from the event log.")
prop("C04", "FCI with correct independence answers returns exactly the true PAG",
     "Whatever the underlying DAG with any latent and selection variables, when every independence answer among the observed variables is correct, FCI returns exactly the partial ancestral graph of the corresponding maximal ancestral graph: same adjacencies, every arrowhead and tail that is common to the whole equivalence class, a circle everywhere else. Its extra edge labels (definitely direct, free of latent confounding) are only given where they are true, and this holds for all variable orders, depths that do not bind and all naming schemes.",
     ["inputs", "configurations"], "all DAGs with latent and selection variables (including worlds chosen so that each of the ten orientation rules is needed), all variable orders",
     "The tests compare FCI on a few fixed graphs that never need most of the orientation rules or the possible-d-sep stage.",
     ["causallearn/search/ConstraintBased/FCI.py", "causallearn/utils/FAS.py", "causallearn/utils/ChoiceGenerator.py", "causallearn/utils/DepthChoiceGenerator.py"],
     [("adjacency search", "FAS.fas"), ("possible-d-sep stage", "FCI.removeByPossibleDsep"), ("orientation rules", "FCI.rulesR1R2cycle, ruleR3 .. ruleR10"), ("edge labels", "FCI.get_color_edges")],
     "runtime monitoring: instrumented m-separation oracle plugged into the CI-test registry, output compared with a PAG computed from an independent MAG/PAG model",
     "Exploration; the reference PAG construction is cross-checked against brute-force enumeration of Markov-equivalent MAGs; corpus of worlds that need rules R4-R10 and the possible-d-sep stage.")
prop("C05", "FCI and fast adjacency search justify every decision by recorded test answers",
     "For every sequence of independence answers, right or wrong, the adjacency search and FCI delete an adjacency only with an accepted independence, keep it only if every candidate set within the final neighbourhoods up to the depth limit was rejected, record the separating sets that did it, respect the depth limit, and return a well-formed graph over the given variables in bounded time. The stable search does not depend on the order of the variables.",
     ["inputs", "configurations", "histories"], "all answer functions of the independence test, all depths, stable and non-stable, all variable orders",
     "Tests see only consistent answers produced by a few data sets and the default depth.",
     ["causallearn/utils/FAS.py", "causallearn/search/ConstraintBased/FCI.py"],
     [("adjacency search", "FAS.fas"), ("FCI stages", "FCI.fci")],
     "runtime monitoring: offline trace checker over the recorded log of independence queries and answers",
     "Exploration over randomly flipped oracles; termination decided by a logical step budget.")
prop("G01", "Graph objects stay consistent under every sequence of edits",
     "After every sequence of node and edge additions, removals, endpoint changes and copies, a graph object answers every query (nodes, edges, adjacency, parents, children, ancestors, degrees, directedness, equality) exactly as a plain mathematical mixed graph that underwent the same edits would, and its adjacency matrix encodes the same marks. DAG objects never accept a change that creates a cycle, and nothing done to a copy or subgraph affects the original.",
     ["histories", "inputs"], "all sequences of graph edits and queries, including deletion, double (directed plus bidirected) edges, subgraphs and failed edits",
     "Tests exercise single edits on tiny graphs; state corruption needs particular multi-step edit histories.",
     ["causallearn/graph/GeneralGraph.py", "causallearn/graph/Dag.py", "causallearn/graph/Edge.py", "causallearn/graph/GraphNode.py", "causallearn/graph/Node.py"],
     [("adjacency matrix and double-edge encoding", "GeneralGraph.add_edge/remove_edge/get_edge"), ("ancestor bookkeeping", "GeneralGraph.adjust_dpath/reconstitute_dpath, Dag.adjust_dpath"), ("acyclicity guard", "Dag.add_directed_edge")],
     "runtime monitoring: model-based history checking, every operation mirrored on a reference mixed graph and every query compared after each step",
     "Exploration of random edit histories; the reference model is a dictionary of marks.")
prop("G02", "Separation, sepset and pattern queries equal their graph-theoretic definitions",
     "For every graph, the d-separation and m-separation queries agree with the definition of separation by blocking paths, a returned separating set really separates and is only refused when none exists among the allowed nodes, and the pattern finders (unshielded triples, colliders, triangles, kites) return exactly the matching node tuples. All of these terminate on every graph.",
     ["inputs"], "all DAGs and mixed ancestral graphs up to 8 nodes, all pairs, all conditioning sets, and the pattern finders on all partially oriented graphs",
     "Tests query a few hand-written graphs; separation involves all paths of all graphs.",
     ["causallearn/graph/GeneralGraph.py", "causallearn/graph/Dag.py", "causallearn/graph/GraphClass.py", "causallearn/utils/GraphUtils.py"],
     [("reachability walk", "GraphUtils.is_dconnected_to"), ("separating set search", "GraphUtils.get_sepset"), ("triples and kites", "GraphClass.find_unshielded_triples/find_triangles/find_kites")],
     "runtime monitoring: query results of the real code compared online with two independent reference implementations",
     "Exploration over random and small graphs; the reference separation is cross-checked by path enumeration.")
prop("G03", "DAG, CPDAG and pattern conversions preserve the Markov equivalence class",
     "Converting a DAG to its CPDAG yields exactly the graph whose directed edges are shared by all Markov-equivalent DAGs; extending a pattern or CPDAG to a DAG yields a member of the class whenever one exists and reports failure otherwise; and the equivalence check says yes exactly for DAGs with the same skeleton and v-structures over the same named variables. Every conversion terminates and leaves its input unchanged.",
     ["inputs"], "all DAGs and partially directed graphs up to 8 nodes, all node orders",
     "Tests compare a few stored networks; correctness is over all equivalence classes.",
     ["causallearn/utils/DAG2CPDAG.py", "causallearn/utils/PDAG2DAG.py", "causallearn/utils/MECCheck.py"],
     [("edge ordering and labelling", "DAG2CPDAG.dag2cpdag"), ("extension", "PDAG2DAG.pdag2dag"), ("equivalence test", "MECCheck.mec_check")],
     "runtime monitoring: conversion results compared with brute-force enumeration of equivalence classes",
     "Exploration plus all DAGs on up to 4 nodes; reference by enumeration and by Meek rules.")
prop("G04", "The true PAG computed from a DAG with latent variables is exact",
     "For every DAG and every choice of latent and selection variables, the computed partial ancestral graph over the observed variables has exactly the adjacencies and the invariant marks of the Markov equivalence class of the DAG's maximal ancestral graph. The graph contains the observed variables only, in the order of the DAG, and the call terminates without changing the DAG.",
     ["inputs"], "all DAGs with latent and selection sets, including those for which each orientation rule is needed",
     "Tests check a few fixed graphs.",
     ["causallearn/utils/DAG2PAG.py", "causallearn/search/ConstraintBased/FCI.py"],
     [("adjacency and separating sets", "DAG2PAG.dag2pag"), ("shared orientation rules", "FCI.rulesR1R2cycle, ruleR3 .. ruleR10")],
     "runtime monitoring: result compared with an independent MAG/PAG model",
     "Exploration with a corpus of worlds that need the rare rules.")
prop("G05", "Graph-comparison metrics equal their definitions for any graphs and node orders",
     "Structural Hamming distance, adjacency and arrowhead confusion counts with their precision and recall, the common-edge variants, and the weighted structural distance equal their definitions computed by hand for every pair of graphs over the same variables. They are matched by variable name, so the order in which either graph lists its nodes is irrelevant, and the distances are zero on equal graphs and symmetric.",
     ["inputs"], "all pairs of DAGs, CPDAGs and PAGs over the same variables, in all node orders",
     "Tests use one or two graph pairs in the same order.",
     ["causallearn/graph/SHD.py", "causallearn/graph/AdjacencyConfusion.py", "causallearn/graph/ArrowConfusion.py", "causallearn/utils/GraphUtils.py"],
     [("distance", "SHD"), ("confusion counts", "AdjacencyConfusion, ArrowConfusion"), ("weighted distance", "GraphUtils.sdh")],
     "runtime monitoring: metric values compared with a direct computation from the two mark matrices",
     "Exploration over random graph pairs.")
prop("G06", "Reading, writing and exporting graphs loses and invents nothing",
     "Writing a graph to text and reading it back gives an equal graph (same named nodes, same edges, same endpoint marks) for every graph the format can express; the dot/pydot export contains exactly the graph's nodes and edges with the right arrowheads and labels; and the edge lists, matrices and networkx views offered for a search result (definite, undirected, bidirected, non-directed edges, graph copies) agree with the result's adjacency matrix. Writing does not change the graph.",
     ["inputs"], "all DAGs, CPDAGs, PAGs and mixed graphs over any node names the format can carry, all endpoint combinations",
     "Tests read a few stored files; round trips must hold for all graphs and names.",
     ["causallearn/utils/TXT2GeneralGraph.py", "causallearn/graph/GeneralGraph.py", "causallearn/utils/GraphUtils.py", "causallearn/graph/GraphClass.py"],
     [("text format", "GeneralGraph.__str__, TXT2GeneralGraph.txt2generalgraph"), ("dot export", "GraphUtils.to_pydot/to_pgv"), ("views", "CausalGraph.find_*, to_nx_graph, to_nx_skeleton")],
     "runtime monitoring: round trips and exports of the real code compared with the mark matrix they were made from",
     "Exploration over random mixed graphs and name sets.")
prop("T01", "Independence tests return the p-value their definition prescribes",
     "For every data set and every way of asking (argument order of X and Y, order, duplicates and container type of the conditioning set), the Fisher-Z, missing-value Fisher-Z, chi-squared, G-squared and d-separation tests return the p-value of their textbook definition, within [0, 1], independent of what was asked before, of column relabelling of the data, and of positive affine rescaling of continuous columns, and they never modify the data.",
     ["inputs", "histories"], "all data sets (continuous, discrete with any codes, with missing values), all queries and query forms",
     "Tests check a few p-values on stored data.",
     ["causallearn/utils/cit.py", "causallearn/utils/PCUtils/Helper.py"],
     [("partial correlation", "FisherZ.__call__"), ("pairwise deletion", "MV_FisherZ.__call__"), ("contingency counting", "Chisq_or_Gsq.chisq_or_gsq_test"), ("oracle", "D_Separation.__call__")],
     "runtime monitoring: every answer of the real tests compared online with an independent computation of the statistic",
     "Exploration; the reference values use textbook formulas in independent code.")
prop("T02", "The p-value cache never changes an answer",
     "Over every history of sessions that share a cache file, each answer equals the answer of a fresh test without cache: hits are only given for the same question on the same data with the same test and parameters, a cache file belonging to other data, another test or other parameters is refused, saved files can be loaded again, and a damaged or foreign file is reported rather than used.",
     ["histories", "crash_points"], "all histories of opening, asking, saving and reopening, with changed data, tests and parameters and damaged files",
     "Tests check a single save and load.",
     ["causallearn/utils/cit.py"],
     [("key normalisation", "CIT_Base.get_formatted_XYZ_and_cachekey"), ("hash checks", "CIT_Base.assert_input_data_is_valid, check_cache_method_consistent"), ("saving", "CIT_Base.save_to_local_cache")],
     "runtime monitoring: histories of sessions with a substituted clock; each answer compared with an uncached run of the real test",
     "Exploration of random session histories; fault injection by truncating and editing cache files.")
prop("T03", "Kernel independence tests compute their statistic and null correctly",
     "KCI returns the p-value of its definition (centred kernels, conditional residual kernels, gamma approximation or simulated null) for every kernel choice, width rule and data set; FastKCI and RCIT p-values follow the laws their constructions prescribe; p-values lie in [0, 1], are the same under exchange of X and Y, permutation of rows and rescaling of the data, are calibrated under independence and detect strong dependence.",
     ["inputs", "configurations"], "all data sets and dimensions, all kernels, widths and null approximations",
     "Tests assert a few p-values; randomised nulls cannot be compared by value.",
     ["causallearn/utils/KCI/KCI.py", "causallearn/utils/KCI/Kernel.py", "causallearn/utils/KCI/GaussianKernel.py", "causallearn/utils/KCI/LinearKernel.py", "causallearn/utils/KCI/PolynomialKernel.py", "causallearn/utils/FastKCI/FastKCI.py", "causallearn/utils/RCIT/RCIT.py"],
     [("unconditional test", "KCI_UInd"), ("conditional test", "KCI_CInd"), ("partitioned test", "FastKCI_CInd, FastKCI_UInd"), ("random features", "RCIT, RIT")],
     "runtime monitoring: closed-form statistics compared with independent computation, randomised ones by monitored null samples and distributional tests with fixed seeds",
     "Exploration; statistical verdicts use thresholds with negligible false-alarm probability and fixed seeds.")
S = "score-based search, "
prop("S01", "Every local score equals its definition for any data, parents and parameters",
     "The BIC, BDeu, cross-validated and marginal-likelihood scores of a variable given any set of parents equal their definitions for every data set and every documented parameter (penalty weight, sample and structure prior, folds, regularization, multi-dimensional variables). They do not depend on the order in which the parents are listed, the caching score object answers exactly as the plain functions do whatever was asked before, and the data are never changed.",
     ["inputs", "configurations", "histories"], "all data sets, parent sets, parameters and sequences of questions to the cache",
     "Tests compare a handful of stored numbers for one data set.",
     ["causallearn/score/LocalScoreFunction.py", "causallearn/score/LocalScoreFunctionClass.py", "causallearn/utils/ScoreUtils.py"],
     [("closed-form scores", "local_score_BIC, local_score_BIC_from_cov, local_score_BDeu"), ("kernel scores", "local_score_cv_*, local_score_marginal_*"), ("cache", "LocalScoreClass.score")],
     "runtime monitoring: score values compared online with independent closed-form computation",
     "Exploration; the marginal likelihood is judged at the stationary points of its noise level.")
prop("S02", "Greedy equivalence search takes best valid steps and ends locally optimal",
     "Every step GES records is a valid insertion or deletion for the current equivalence class, none of the other valid steps would improve the score more, and the graph recorded after it is exactly the class the step leads to. Each phase stops only when no valid step improves the score, the returned score is the score of the returned graph, the parent bound and node names are honoured, and with an exact large sample of a faithful DAG the result is that DAG's equivalence class.",
     ["inputs", "configurations", "histories"], "all data sets, scores, parent bounds, node names and variable orders",
     "Tests compare the final graph on two data sets with a stored one; a wrong operator, class or stopping rule shows only on particular score landscapes.",
     ["causallearn/search/ScoreBased/GES.py", "causallearn/utils/GESUtils.py", "causallearn/utils/DAG2CPDAG.py", "causallearn/utils/PDAG2DAG.py"],
     [("phases", "ges"), ("validity", "insert_validity_test1/2, delete_validity_test"), ("score changes", "insert_changed_score, delete_changed_score")],
     "runtime monitoring: offline checker of the recorded operator trace against independently enumerated operators and scores",
     "Exploration up to 7 variables; operator enumeration cross-checked by enumerating equivalence classes.")
prop("S03", "Exact search returns a DAG with the optimal score",
     "For every data set, dynamic programming and A* return an acyclic graph whose total BIC score is the minimum over all DAGs that obey the parent bound, the required graph and the allowed super-graph, whichever heuristic or path-extension option is switched on. The inputs are never changed.",
     ["inputs", "configurations"], "all data sets, all option combinations (search method, path extension, k-cycle heuristic, super-graph, include-graph, parent bound)",
     "Tests compare two methods on one stored data set; pruning errors only show where the optimum is off the greedy path.",
     ["causallearn/search/ScoreBased/ExactSearch.py"],
     [("search", "bic_exact_search, astar_shortest_path, dp_shortest_path, path_extension"), ("heuristic", "create_dynamic_pd, compute_dynamic_h"), ("pruning", "generate_parent_graph, query_best_structure")],
     "runtime monitoring: returned graphs and hooked heuristic values compared with an independent exhaustive optimum",
     "Exploration up to 6-7 variables, where all DAG scores are enumerated by an independent recursion.")
prop("S04", "Permutation searches end at a locally best order and return exactly its DAG",
     "BOSS and GRaSP return the equivalence class of a DAG in which every variable has the parents that greedy growing and shrinking gives it for some order of the variables, and no single move the algorithm considers (BOSS: moving one variable anywhere; GRaSP: a single tuck) would improve the total score of that order. Grow-shrink answers carry their true score and do not depend on the queries asked before. Results are reproducible for a fixed seed, node names are honoured, the data are not changed, and with an exact large sample and sufficient depth GRaSP returns the true equivalence class.",
     ["inputs", "configurations", "histories"], "all data sets, scores, depths, initial orders and query sequences to the grow-shrink trees",
     "Tests compare two recoveries with fixed seeds.",
     ["causallearn/search/PermutationBased/BOSS.py", "causallearn/search/PermutationBased/GRaSP.py", "causallearn/search/PermutationBased/gst.py"],
     [("grow-shrink tree", "GST.trace, GSTNode.grow/shrink"), ("order search", "BOSS.better_mutation, GRaSP.dfs, update, tuck"), ("result", "dag2cpdag at the end of boss and grasp")],
     "runtime monitoring: hooked orders, parents and scores of the real runs compared with independent grow-shrink and move enumeration",
     "Exploration up to 8 variables; random initial orders by seeding the generator the search uses.")
prop("S05", "Markov networks and continuous search results follow their definition",
     "With exact data the IAMB Markov network is the moral graph of the DAG; with any answers each blanket decision is justified by recorded test answers and an edge is kept only when both ends agree. The CALM objective, its acyclicity term and its mask equal their closed forms, and CALM returns an acyclic graph over the given variables inside the moral graph whose reported matrix, threshold and equivalence class agree.",
     ["inputs", "configurations"], "all data sets, answer patterns, penalty settings and thresholds",
     "Tests run one data set and compare the outcome with a stored graph.",
     ["causallearn/utils/MarkovNetwork/iamb.py", "causallearn/search/ScoreBased/CALM.py", "causallearn/utils/CALMUtils.py"],
     [("blanket", "iamb, iamb_markov_network"), ("objective", "CalmModel.compute_*"), ("post-processing", "calm")],
     "runtime monitoring: recorded test answers checked offline; objective terms compared online with closed forms",
     "Exploration; short optimizer runs, structural guarantees only.")
prop("C03", "Background knowledge is obeyed and never spoils a correct search",
     "A knowledge object answers every question about forbidden and required edges and tiers exactly as the statements currently made in it say, for any history of adding and taking back statements. With knowledge, PC and FCI never return a directed edge that is forbidden or opposite to a required one, keep no adjacency that is banned in both directions, and direct the adjacencies it speaks about. When the knowledge is true and the independence answers are correct, PC and FCI find exactly the true adjacencies, every mark they give is true, nothing found without knowledge is lost, and PC draws the consequences of the knowledge by its orientation rules. The knowledge object is not changed by a search.",
     ["inputs", "configurations", "histories"], "all histories of statements, all DAGs (with latent variables for FCI), all true or merely consistent knowledge, all PC options",
     "Tests pass a few fixed statements and compare with one expected graph.",
     ["causallearn/utils/PCUtils/BackgroundKnowledge.py", "causallearn/utils/PCUtils/BackgroundKnowledgeOrientUtils.py", "causallearn/utils/PCUtils/SkeletonDiscovery.py", "causallearn/utils/PCUtils/UCSepset.py", "causallearn/utils/PCUtils/Meek.py", "causallearn/utils/FAS.py", "causallearn/search/ConstraintBased/FCI.py"],
     [("queries", "BackgroundKnowledge.is_forbidden/is_required"), ("initial orientation", "orient_by_background_knowledge, fci_orient_bk"), ("guards in the rules", "UCSepset, Meek, FCI.is_arrow_point_allowed"), ("banned pairs", "skeleton_discovery, fas")],
     "runtime monitoring: knowledge histories against a model; results of searches with traced oracles compared with independent closures of the true graph",
     "Exploration; for FCI soundness, not completeness, of the use of knowledge.")
prop("C06", "CD-NOD finds the augmented graph and directs edges away from the domain index",
     "On data augmented by a domain or time index, when every independence answer is correct CD-NOD returns exactly the adjacencies of the augmented DAG, every edge of the index points away from it, and the remaining orientations are those that the unshielded colliders, the index edges and any true background knowledge imply under the orientation rules, for every option combination. With wrong answers each removal and retention is still justified by the recorded answers and knowledge, the index edges point away from the index (unless the chosen priority overwrites), and knowledge is obeyed. The input arrays are not changed.",
     ["inputs", "configurations"], "all augmented DAGs, all option combinations, any consistent knowledge, any answers",
     "Tests run two data sets and print the result.",
     ["causallearn/search/ConstraintBased/CDNOD.py"],
     [("skeleton over the augmented data", "CDNOD.cdnod_alg"), ("index orientation", "CDNOD.cdnod_alg, mvcdnod_alg"), ("propagation", "UCSepset, Meek")],
     "runtime monitoring: traced independence oracles plugged into the real search; result compared with an independent closure",
     "Exploration up to 7 variables.")
prop("C07", "PC with missing values corrects its skeleton and tests as specified",
     "The missing-value PC (and CD-NOD) finds exactly the causes of missingness, the test-wise deletion skeleton and the corrected skeleton that the answers imply; every removal is justified by an accepted deletion or corrected test with its separating set recorded, every edge kept was rejected by the corrected test for all sets of final neighbours, in the stable and the unstable variant. When the resulting skeleton is right the orientation is exactly that of the equivalence class; missingness at random without causes never changes the result; without missing values the search equals PC. The corrected test falls back to test-wise deletion exactly when its conditions fail and otherwise has the law of the regression-and-permutation construction, and neither data nor arguments are changed.",
     ["inputs", "configurations"], "all DAGs with missingness indicators, all patterns of missing values, all option combinations, all queries to the corrected test",
     "Tests run three data sets and print differences; nothing is asserted.",
     ["causallearn/search/ConstraintBased/PC.py", "causallearn/search/ConstraintBased/CDNOD.py", "causallearn/utils/cit.py", "causallearn/utils/PCUtils/Helper.py"],
     [("causes of missingness", "PC.detect_parent, get_parent_missingness_pairs"), ("correction", "PC.skeleton_correction"), ("corrected test", "MC_FisherZ.__call__, Helper.gen_vir_data, learn_regression_model, get_predictor_ws")],
     "runtime monitoring: traced deletion and correction oracles; corrected test compared in law with an independent implementation",
     "Exploration up to 6 variables; the randomised test is compared by mean statistic over repeated calls.")
LN = "causallearn/search/FCMBased/lingam/"
prop("L01", "DirectLiNGAM and ICA-LiNGAM estimate orders and coefficients as defined",
     "For every data set DirectLiNGAM's order takes, at every step, the remaining variable that is most independent of its regression residuals by the chosen measure (pairwise or kernel), and every coefficient row is the BIC adaptive-lasso regression on the predecessors, so the matrix is always acyclic in the reported order. Fitting again with the same or a used object gives the same result, permuting the columns permutes it, location and scale do not matter, the data are not changed. On large samples of linear models with strongly non-Gaussian noise the order is causal and the coefficients are the true ones (DirectLiNGAM and ICA-LiNGAM, any number of variables). Total effects are the adaptive-lasso coefficients given the parents and converge to the path sums; going against the order warns; the residual independence p-values are the HSIC gamma p-values.",
     ["inputs", "configurations", "histories"], "all data sets, variable orders, measures, and repeated fits of one object",
     "The tests fit fixed data and mostly print the result; order, refit and two-variable behaviour are not pinned.",
     [LN + "direct_lingam.py", LN + "ica_lingam.py", LN + "base.py", LN + "hsic.py", LN + "utils/__init__.py"],
     [("causal order", "DirectLiNGAM._search_causal_order, _search_causal_order_kernel, ICALiNGAM._estimate_causal_order"), ("coefficients", "base._estimate_adjacency_matrix, utils.predict_adaptive_lasso"), ("total effects and p-values", "base.estimate_total_effect, get_error_independence_p_values")],
     "runtime monitoring: every fit checked online against an independent implementation of the selection rule, plus truth and metamorphic checks",
     "Exploration up to 6 variables; ties between candidates within 2% are accepted either way.")
prop("L02", "LiNGAM respects prior knowledge in every fit and bootstrap",
     "The knowledge matrix built from exogenous variables, sinks, paths and no-paths contains exactly the stated entries. With hard knowledge that fits an order, the fitted order never contradicts a known path or no-path, no coefficient contradicts a no-path, the remaining choices are those of the unconstrained rule among the allowed candidates, in the first fit, in refits and in every bootstrap sample; knowledge that orders no pair still forbids its coefficients; soft knowledge forbids the no-path coefficients. Complete correct knowledge yields the true graph even with Gaussian noise. Knowledge of the wrong shape or contradictory paths are refused.",
     ["inputs", "configurations", "histories"], "all consistent knowledge matrices, all data sets, repeated fits and bootstraps of one object",
     "The tests use one or two knowledge matrices and a single fit.",
     [LN + "direct_lingam.py", LN + "base.py", LN + "bootstrap.py", LN + "utils/__init__.py"],
     [("partial orders", "DirectLiNGAM._extract_partial_orders, _search_candidate"), ("forbidden coefficients", "base._estimate_adjacency_matrix"), ("knowledge matrix", "utils.make_prior_knowledge")],
     "runtime monitoring: constraint monitors on every fit of every history, against a reference closure of the knowledge",
     "Exploration up to 6 variables; cyclic no-path knowledge (which no order can obey) is outside the claim.")
prop("L03", "Bootstrap results aggregate exactly the models that were fitted",
     "For every list of fitted matrices the bootstrap result's direction counts, DAG counts (with and without signs, thresholds and limits, unknown entries counted as absent), probabilities, total effects and path tables equal a direct count, in descending order; this holds for plain, time-series and longitudinal results, and the printed tables show the same numbers. Running bootstrap() fits exactly the requested number of resamples, each made of rows of the data (kept together over time points), stores exactly the fitted matrices and, in the columns of its own lag, the total effects along the fitted order. Invalid arguments are refused and the data are not changed.",
     ["inputs", "histories"], "all arrays of fitted matrices, thresholds, limits; all bootstrap runs of all models",
     "The tests call the methods and print; nothing compares the numbers.",
     [LN + "bootstrap.py", LN + "utils/__init__.py", LN + "rcd.py", LN + "bottom_up_parce_lingam.py", LN + "multi_group_direct_lingam.py", LN + "var_lingam.py", LN + "longitudinal_lingam.py"],
     [("aggregates", "BootstrapResult, TimeseriesBootstrapResult, LongitudinalBootstrapResult"), ("resampling", "BootstrapMixin.bootstrap and the bootstrap methods of the models"), ("printing", "utils.print_causal_directions, print_dagc")],
     "runtime monitoring: fit calls of real bootstraps recorded and compared with the result; aggregates compared with a direct count",
     "Exploration; exact equality of a coefficient and the threshold is left open.")
prop("L04", "Interventions, path enumeration and LiNGAM helpers equal their definitions",
     "For every linear acyclic model (fitted object, array or list) the effect of an intervention on any prediction model equals the change of the prediction at the post-intervention expectations, and the optimal intervention makes the expected linear prediction equal the desired value. The enumerated directed paths and their effects, sinks and exogenous variables, effect-removed data and adaptive-lasso coefficients equal their definitions; the dot export shows exactly the edges above the limit with their coefficients, the unknown pairs double-headed, and the prediction edges. Cyclic, non-square and mis-sized arguments are refused and inputs are not changed.",
     ["inputs", "configurations"], "all acyclic matrices, data sets, prediction models, targets, interventions, thresholds and labels",
     "The tests use one model and check only that numbers come out.",
     [LN + "causal_effect.py", LN + "utils/__init__.py"],
     [("interventions", "CausalEffect.estimate_effects_on_prediction, estimate_optimal_intervention"), ("paths", "utils.find_all_paths"), ("helpers", "utils.remove_effect, make_dot, get_sink_variables, get_exo_variables, predict_adaptive_lasso")],
     "runtime monitoring: results of the real code compared with matrix algebra on the modified structural equations",
     "Exploration up to 7 variables.")
prop("L05", "Time-series and multi-group LiNGAM estimate lag matrices and effects correctly",
     "VARLiNGAM selects the lag order that minimises the chosen criterion, its residuals are those of the least-squares or given autoregression, and its lag matrices are (I-B0)M_k or the adaptive-lasso pruned ones with the selected lags; VARMALiNGAM's residuals satisfy the ARMA recursion and its matrices include (I-B0) Theta (I-B0)^-1; their lagged total effects condition on the parents of the lagged source. LongitudinalLiNGAM uses only earlier time points and marks unavailable lags as unknown; MultiGroupDirectLiNGAM takes the common order by the size-weighted scores, for groups of any sizes. A used model fits other data exactly like a new one, inputs are not changed, and long series with strong effects recover the true matrices and effects.",
     ["inputs", "configurations", "histories"], "all series, panels and groups, lag orders, criteria, given coefficients and repeated fits",
     "The tests fit one generated series each with one lag and one fit, and print the result.",
     [LN + "var_lingam.py", LN + "varma_lingam.py", LN + "longitudinal_lingam.py", LN + "multi_group_direct_lingam.py"],
     [("autoregression", "VARLiNGAM._estimate_var_coefs, _calc_residuals, _calc_b, _pruning"), ("ARMA", "VARMALiNGAM._calc_residuals, _calc_psi_and_omega, estimate_total_effect"), ("panel", "LongitudinalLiNGAM._compute_residuals"), ("groups", "MultiGroupDirectLiNGAM._search_causal_order")],
     "runtime monitoring: every fit of a history compared with an independent implementation of the model equations, plus truth checks",
     "Exploration up to 3-4 variables and 3 lags; VARMA likelihood fits are few.")
prop("L06", "Hidden-common-cause LiNGAM methods decide by their own independence tests",
     "RCD, CAM-UV and bottom-up ParceLiNGAM return exactly what their definitions say about the data: ancestors, parents, confounded pairs, causal order and undecided blocks follow from the HSIC, correlation and normality tests at the given levels, over every subset up to the given size; coefficients are the regressions on the selected parents; unknown entries are marked exactly for confounded or undecided pairs. The HSIC p-values equal the gamma approximation. Prior knowledge is never contradicted. Permuting the columns permutes the answer, refitting repeats it, the data are not changed, and bootstraps store exactly the fitted models. On large samples the true graph is recovered and strongly confounded pairs are left undecided.",
     ["inputs", "configurations", "histories"], "all data sets, levels, set sizes, bandwidths, prior knowledge, variable orders and repeated fits",
     "The tests fit one data set per method and print or compare nothing but shapes.",
     [LN + "rcd.py", LN + "CAMUV.py", LN + "bottom_up_parce_lingam.py", LN + "hsic.py", LN + "hsic2.py"],
     [("RCD", "RCD._extract_ancestors, _extract_parents, _extract_vars_sharing_confounders"), ("CAM-UV", "CAMUV.get_neighborhoods, find_parents, execute"), ("ParceLiNGAM", "BottomUpParceLiNGAM._search_causal_order, _estimate_adjacency_matrix"), ("HSIC", "hsic.hsic_test_gamma, hsic2.hsic_gam")],
     "runtime monitoring: every fit compared with an independent re-derivation from the tests, near-threshold decisions left open, plus truth checks",
     "Exploration up to 5 variables; truth checks repeat on fresh samples because the tests have type-I errors.")
prop("L07", "ANM and PNL report the p-value of cause-noise independence in both directions",
     "For every pair of samples ANM's two p-values are those of the kernel independence test between the assumed cause and the residual of the Gaussian-process regression of the assumed effect; swapping the arguments swaps them, a used object answers like a new one, and the true direction of an additive-noise model is accepted and the wrong one rejected on large samples. PNL trains its networks on the pair in each direction whatever the sample size, reports p-values that judge the independence of assumed cause and estimated noise, and repeats its answer. Inputs are not changed.",
     ["inputs", "configurations", "histories"], "all pairs of samples, kernels, sample sizes and repeated calls",
     "The tests compare with two stored numbers on simulated pairs; small samples, swapped arguments, kernels and reuse are not covered.",
     ["causallearn/search/FCMBased/ANM/ANM.py", "causallearn/search/FCMBased/PNL/PNL.py", "causallearn/utils/KCI/KCI.py"],
     [("regression and test", "ANM.fit_gp, cause_or_effect"), ("training", "PNL.nica_mnd"), ("directions", "PNL.cause_or_effect")],
     "runtime monitoring: p-values of real runs compared with a closed-form reference of the independence test; PNL's noise estimates recorded and judged",
     "Exploration; the Gaussian-process regression and network training themselves are scikit-learn's and PyTorch's. PNL's t-test is a known finding.")
prop("T04", "Granger tests equal nested lag regressions and find exactly the true lags",
     "For every multivariate series the pairwise p-values are those of the F, likelihood-ratio or chi-square test comparing the regression on own lags with the one that adds the other series' lags, entered at cause column and effect row of each lag block, and significance is the comparison with the level; the lasso variant's entries are the cross-validated lasso coefficients of the lagged regression. Scaling or relabelling the series scales or permutes the answer, the data are not changed, wrong dimensions are refused, and long series recover the true lagged parents.",
     ["inputs", "configurations"], "all series, lag lengths, tests, levels, scales and orders",
     "The tests compare one series with stored numbers and one lag length.",
     ["causallearn/search/Granger/Granger.py"],
     [("pairwise test", "Granger.granger_test_2d"), ("lasso", "Granger.granger_lasso")],
     "runtime monitoring: every run compared with an independent implementation of the nested regressions, plus truth and metamorphic checks",
     "Exploration up to 4 series and 4 lags; the lasso solver is scikit-learn's.")
prop("H01", "GIN finds the clusters of latent variables and their causal order",
     "For every data set GIN groups the measured variables by exactly the sets whose generalised independent-noise condition its tests accept (merged when they overlap), and orders the clusters by the same condition; GIN_MI does the same with dependence scores. The returned graph has one latent node per cluster with arrows to exactly its members and arrows or undirected edges among the latent nodes as the order says; variables in no cluster stay unconnected. On large samples of linear non-Gaussian latent models the true clusters in a true order come out for every column order. The data are not changed.",
     ["inputs", "configurations"], "all data sets, levels, independence tests, cluster sizes, latent structures and column orders",
     "The tests run four fixed simulated structures, one seed each, and compare only the causal order.",
     ["causallearn/search/HiddenCausal/GIN/GIN.py"],
     [("clusters", "GIN.GIN, merge_overlaping_cluster"), ("order", "GIN.GIN, find_root"), ("graph", "GIN.GIN, GIN_MI")],
     "runtime monitoring: every run compared with an independent implementation of the conditions and the tests, plus truth checks",
     "Exploration up to 9 measured variables and 3 latent ones; near-threshold decisions are left open.")
prop("X01", "Methods leave inputs and global state alone and repeat their results",
     "Every search and test of the library, used as one step of a longer session, gives the same result for the same data: whatever other methods ran before, on a read-only copy, in another memory order or number type, in an array that held other data before, in another process with another hash seed, and, unless documented as random, whatever the state of the global random generators. No method changes the arrays, knowledge, parameter dictionaries or names passed to it, nor process-wide settings (floating-point error handling, warning filters, default tensor type, thread counts, working directory and its files), on import or when called.",
     ["histories", "inputs", "configurations", "schedules"], "all sequences of calls of all methods on all data sets, all processes and hash seeds",
     "Each test calls one method once per process, on a fresh array; nothing looks at what is left behind.",
     ["causallearn/search/ScoreBased/CALM.py", "causallearn/search/FCMBased/PNL/PNL.py", "causallearn/search/ConstraintBased/PC.py", "causallearn/search/ConstraintBased/FCI.py", "causallearn/search/ConstraintBased/CDNOD.py", "causallearn/search/ScoreBased/GES.py", "causallearn/search/ScoreBased/ExactSearch.py", "causallearn/search/PermutationBased/BOSS.py", "causallearn/search/PermutationBased/GRaSP.py", "causallearn/utils/cit.py"],
     [("entry points", "pc, fci, cdnod, ges, bic_exact_search, boss, grasp, calm, iamb, LiNGAM classes, GIN, ANM, PNL, Granger, CIT"), ("global settings", "module import of each method")],
     "runtime monitoring: argument and process-state monitors around every call of random sessions; results compared between contexts and processes",
     "Exploration: 40 method configurations in random sessions; floating-point results compared with relative tolerance 1e-6.")
prop("X02", "Options that say nothing change no result",
     "Every search returns exactly the same graph, separating sets and edge labels, after asking the same independence questions in the same order, whether it reports what it does (verbose, progress bar, logging) or not, whatever the independence answers are, and reporting itself never fails. Arguments that say nothing change nothing either: empty background knowledge, prior-knowledge matrices without an entry, complete super-graphs and empty include-graphs, node names equal to the default ones, depth, path-length and parent bounds that cannot bind, and optional arguments spelled out with their default values. An independence test gives the same p-value for every way of writing the same question: conditioning set as list, tuple, set or array, in any order, with repetitions, or omitted when empty.",
     ["inputs", "configurations", "histories"], "all data sets and all (also contradictory) answer functions of the independence test, all combinations of neutral options",
     "The tests run every method with one fixed set of options, mostly quietly, and never compare two spellings of the same call.",
     ["causallearn/search/ConstraintBased/PC.py", "causallearn/search/ConstraintBased/FCI.py", "causallearn/search/ConstraintBased/CDNOD.py", "causallearn/utils/FAS.py", "causallearn/utils/PCUtils/SkeletonDiscovery.py", "causallearn/search/ScoreBased/ExactSearch.py", "causallearn/search/PermutationBased/BOSS.py", "causallearn/search/PermutationBased/GRaSP.py", "causallearn/search/ScoreBased/GES.py", "causallearn/utils/cit.py", "causallearn/search/FCMBased/lingam/direct_lingam.py"],
     [("reporting branches", "FCI.ruleR1 .. doDdpOrientation, FAS.fas, SkeletonDiscovery.skeleton_discovery, BOSS.boss, GRaSP.grasp, ExactSearch"), ("default handling", "argument checks of every entry point"), ("question normalisation", "cit.CIT_Base.get_formatted_XYZ_and_cachekey")],
     "runtime monitoring: paired executions of the real code under neutral options, results and recorded question logs compared",
     "Exploration: hundreds (quick) to thousands (thorough) of pairs over noisy answer tables and worlds that need FCI's rare rules; log and printed output captured.")
prop("U01", "Enumerators, queues, path helpers, loaders and plots do what they say",
     "For all parameters the choice generators enumerate every combination exactly once in order and then end; the set, sorting and product helpers equal their definitions; the priority queue always pops a least remaining entry and never a deleted one; the adjacency-matrix helpers (parents, neighbours, d-separation, DAG to pattern, orderings) equal graph-theoretic definitions and leave the matrix alone; a causal order of a DAG lists every node after its parents and directed-path queries equal reachability; a loaded data set is the table that was served, with its labels, and unknown names are refused; the time-series plot links exactly the non-zero entries and places the variables in the given order.",
     ["inputs", "configurations"], "all parameters, matrices, DAGs, orders, operation sequences of the queue, served tables",
     "Most of these helpers have no test of their own.",
     ["causallearn/utils/ChoiceGenerator.py", "causallearn/utils/DepthChoiceGenerator.py", "causallearn/utils/PriorityQueue.py", "causallearn/utils/PCUtils/Helper.py", "causallearn/utils/GraphUtils.py", "causallearn/utils/Dataset.py", "causallearn/utils/TimeseriesVisualization.py", "causallearn/utils/GESUtils.py"],
     [("enumeration", "ChoiceGenerator.next, DepthChoiceGenerator.next, Combinatorial, Helper.powerset"), ("queue", "PriorityQueue"), ("orders and paths", "GraphUtils.get_causal_order, exists_directed_path_from_to_breadth_first"), ("plot", "TimeseriesVisualization.plot_time_series"), ("data sets", "Dataset.load_dataset")],
     "runtime monitoring: results of the real helpers compared with direct definitions over random operation histories; drawing and downloading calls intercepted",
     "Exploration up to 8 elements; plots are observed through the drawing call, without rendering.")
