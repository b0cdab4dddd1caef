"""Source of properties.jsonl: (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)])"""
P = []
def p(*a): P.append(a)
CL = 'pyclustering/cluster/'
CC = 'ccore/src/cluster/'

p('C01', 'Parallel loops run every index exactly once, before returning',
  'A parallel loop over an index range with a step, or over a sequence of elements, runs its body exactly once for each index start, start+step, ... below the end (each element of the sequence), whatever the number of threads, and never for anything else. When the call returns, all bodies have finished, in every interleaving of the worker threads.',
  ['schedules', 'inputs'], 'every start, end, step, number of threads and element count; every interleaving of the workers',
  'Unit tests run a few sizes on the real scheduler, once; the division of the range depends on the machine and the interleaving on the operating system.',
  ['ccore/include/pyclustering/parallel/parallel.hpp'], [('division of the range between asynchronous workers and the caller', 'parallel_for / parallel_for_each')])
p('C02', 'Thread pool executes every task once and wakes its waiters',
  'A task handed to a thread pool is executed exactly once; waiting for it returns only after it has been executed, and always returns, also when the tasks wait for each other and there are no more of them than threads. A task submitted only if the pool is free is accepted exactly when an idle thread will take it, and is otherwise refused and never executed. Destroying an idle pool always terminates, in every interleaving of the submitting, waiting and worker threads.',
  ['schedules', 'histories'], 'every pool size, number of tasks and clients, and every interleaving of them',
  'A test samples the few schedules the operating system happens to produce; lost wake-ups and races at start-up or shutdown need one specific interleaving.',
  ['ccore/src/parallel/thread_pool.cpp', 'ccore/src/parallel/thread_executor.cpp', 'ccore/src/parallel/task.cpp', 'ccore/src/parallel/spinlock.cpp'],
  [('queue and condition variables', 'thread_pool::add_task, thread_pool::get_task'), ('executor loop', 'thread_executor::run'), ('ready flag', 'task::wait_ready')])
p('C03', 'KD-tree answers every lookup like exhaustive search after any history',
  'After any sequence of insertions and removals, a kd-tree contains exactly the points inserted and not removed, with their payloads, under the ordering invariant of its splitting dimensions. Lookups by coordinates and payload, the nearest node within a radius and the set of nodes within a radius return what exhaustive search over the contained points returns, in the Python and in the C++ tree, balanced or not.',
  ['histories', 'inputs'], 'every sequence of insert/remove operations over every multiset of points (duplicate coordinates, ties, same payloads) and every query',
  'The tests insert and remove a few fixed samples; removal has many structural cases (replacement from the right or the left subtree, equal coordinates) that only particular histories reach.',
  ['pyclustering/container/kdtree.py', 'ccore/src/container/kdtree.cpp', 'ccore/src/container/kdtree_balanced.cpp', 'ccore/src/container/kdtree_searcher.cpp'],
  [('insertion and removal', 'kdtree.insert / kdtree.remove'), ('search', 'kdtree.find_nearest_dist_nodes, kdtree_searcher')])
p('C04', 'CF-tree summaries equal the points below them; BIRCH loses nothing',
  'After any sequence of insertions the clustering feature of every node and leaf entry of a CF-tree equals the exact count, linear sum and square sum of the points inserted below it, the tree\'s counters match its structure, and the branching, entry and depth invariants hold. The distance and spread measures of a clustering feature equal those of the points it summarises, and BIRCH keeps no more summaries than its limit and assigns every object to the cluster of the nearest one.',
  ['histories', 'inputs'], 'every insertion order of every lattice data set, branching factor, entry limit, diameter, measurement type',
  'The tests check counters on a handful of samples; splits, merges and rebuilds interact only for particular orders.',
  ['pyclustering/container/cftree.py', CL + 'birch.py'],
  [('insertion, split, merge of nodes', 'cftree.insert'), ('tree rebuild', 'birch.__rebuild_tree'), ('assignment', 'birch.__decode_data')])
p('C05', 'Adjacency collections and networks keep an exact, consistent graph',
  'Every adjacency collection behaves as a weighted directed graph under any sequence of connection updates: presence, weight and neighbour queries agree with each other and with the updates made, in all representations. Every standard structure (all-to-all, bidirectional list, grid with four or eight neighbours) connects exactly the pairs its definition names, symmetrically and without self-loops, for every size and grid shape.',
  ['histories', 'configurations', 'inputs'], 'every sequence of updates and erasures, every representation, every size and grid height/width',
  'Tests look at a few sizes and one update at a time; consistency between representations needs arbitrary histories.',
  ['pyclustering/nnet/__init__.py', 'ccore/src/container/adjacency_matrix.cpp', 'ccore/src/container/adjacency_bit_matrix.cpp', 'ccore/src/container/adjacency_list.cpp', 'ccore/src/container/adjacency_weight_list.cpp', 'ccore/include/pyclustering/container/adjacency_connector.hpp'],
  [('updates and queries', 'adjacency_* collections'), ('structures', 'adjacency_connector::create_*, network.__create_*_connection')])
p('C06', 'Every clusterer partitions its input, leaves it intact, and repeats itself',
  'Every clustering algorithm returns clusters (and noise or outliers where it has them) in which every object of the input occurs exactly once with a valid index; no cluster is empty where clusters consist of objects (those of fuzzy centers, map neurons, summaries, chromosomes and mixture components may be). It does not modify the data passed to it, gives the same answer for the same data in another container (list or array), asking again changes nothing, processing again adds nothing to earlier results (refinement algorithms may go on from the centers found), and a deterministic algorithm gives the same answer when it is run again.',
  ['inputs', 'configurations'], 'every algorithm, every data set (duplicates, single object, lines, ties), every valid parameter combination, both cores',
  'Tests sum cluster sizes on well separated samples; nobody checks the input afterwards, nor degenerate data.',
  [CL + f for f in ('agglomerative.py', 'bang.py', 'birch.py', 'bsas.py', 'clarans.py', 'clique.py', 'cure.py', 'dbscan.py', 'ema.py', 'fcm.py', 'ga.py', 'gmeans.py', 'hsyncnet.py', 'kmeans.py', 'kmedians.py', 'kmedoids.py', 'mbsas.py', 'optics.py', 'rock.py', 'somsc.py', 'syncnet.py', 'syncsom.py', 'ttsas.py', 'xmeans.py')],
  [('allocation of clusters', 'process() / get_clusters() / get_noise() of every algorithm')])
p('C07', 'DBSCAN returns the density-connected components',
  'The clusters DBSCAN returns are exactly the density-connected components of the core objects (at least the given number of other objects within the radius, inclusive); every border object belongs to a cluster of a core object that reaches it, and exactly the objects reached by no core object are noise. This holds for coordinates and for a distance matrix, for the Python and the C++ core, and for a restored (pickled) instance.',
  ['inputs', 'configurations'], 'every data set, radius, neighbour count, input kind and core', 'Tests compare cluster sizes on a dozen separated samples; borders and ties at the radius are not sampled.',
  [CL + 'dbscan.py', CC + 'dbscan.cpp'], [('expansion of a cluster', 'dbscan.__expand_cluster'), ('neighbourhood by kd-tree or matrix', 'dbscan.__neighbor_indexes_*')])
p('C08', 'OPTICS ordering, core and reachability distances are exact',
  'OPTICS visits every object once; every core distance is the distance to the nearest neighbour that completes the required number within the radius, and every reachability distance is the smallest max(core distance, distance) over the core objects visited before, with the next object of an ordering always one with the smallest reachability among those reached. The clusters and the noise are those of the density-connected components for that radius (only a border object visited before any core object that reaches it may stay noise), and the radius computed for a requested number of clusters yields that number according to the ordering.',
  ['inputs', 'configurations'], 'every data set, radius, neighbour count, requested number of clusters, input kind and core', 'Tests check lengths and sizes; the priority-queue discipline and its updates are visible only in the order of visits.',
  [CL + 'optics.py', CC + 'optics.cpp', CC + 'ordering_analyser.cpp'], [('ordered seeds', 'optics.__update_order_seed'), ('ordering analysis', 'ordering_analyser')])
p('C09', 'Agglomerative clustering always merges the closest pair',
  'Agglomerative clustering starts from single objects and at each step merges two clusters whose distance - the smallest, largest or average pairwise distance, or the distance of the centroids, as chosen - is the least over all pairs, until the requested number remains. Asking for one cluster less merges exactly two of the previous clusters.',
  ['inputs', 'configurations'], 'every data set, every number of clusters, four links, both cores', 'Tests check sizes for separated data, where every link gives the same answer.',
  [CL + 'agglomerative.py', CC + 'agglomerative.cpp'], [('link distances', 'agglomerative.__merge_by_*_link')])
p('C10', 'Sequential schemes (BSAS, MBSAS, TTSAS) follow their decision rule',
  'Objects are processed in order: an object farther than the threshold from every representative opens a new cluster while fewer than the maximum exist, otherwise it joins the nearest cluster, whose representative becomes the mean of its members. MBSAS fixes the cluster seeds in a first pass and assigns the rest in a second; TTSAS assigns objects closer than the first threshold, opens clusters beyond the second, and postpones those in between until every object is assigned.',
  ['inputs', 'configurations'], 'every data set and order, thresholds, maximum number of clusters, metric, both cores', 'Tests look at the sizes on separated samples, where representatives hardly matter.',
  [CL + 'bsas.py', CL + 'mbsas.py', CL + 'ttsas.py', CC + 'bsas.cpp', CC + 'mbsas.cpp', CC + 'ttsas.cpp'], [('representative update', 'bsas._update_representative')])
p('C11', 'ROCK merges by goodness over common neighbours',
  'ROCK starts from single objects and at each step merges two clusters with the largest goodness (number of links between them divided by the expected number for their sizes), until the requested number of clusters is reached or no two clusters share a link. Objects are neighbours when closer than the radius, and the links between two clusters are counted from the adjacency of their objects.',
  ['inputs', 'configurations'], 'every data set, radius, threshold, number of clusters, both cores', 'Tests check sizes on separated samples where goodness never decides.',
  [CL + 'rock.py', CC + 'rock.cpp'], [('goodness', 'rock.__calculate_goodness'), ('pair search', 'rock.__find_pair_clusters')])
p('C12', 'K-Means iterations assign to the nearest mean until nothing moves',
  'Every K-Means iteration assigns each object to a nearest center and moves each center to the mean of its objects, dropping centers without objects; it stops exactly when no center moved by more than the tolerance or the iteration limit is reached. The observed history, the final clusters, centers and total error describe that last iteration, and prediction returns a nearest center, for every metric and both cores.',
  ['inputs', 'configurations', 'histories'], 'every data set, initial centers, metric, tolerance, iteration limit, core', 'Tests use separated samples converging in two steps from good centers.',
  [CL + 'kmeans.py', CC + 'kmeans.cpp'], [('assignment', '__update_clusters'), ('means', '__update_centers'), ('stop', '__calculate_changes')])
p('C13', 'K-Medians iterations assign to the nearest median until nothing moves',
  'Every K-Medians iteration assigns each object to a nearest median and moves each median to the coordinate-wise median of its objects, dropping medians without objects; it stops when no median moved by more than the tolerance or at the iteration limit. The final clusters, medians and total error describe that last iteration, and prediction returns a nearest median, for every metric and both cores.',
  ['inputs', 'configurations', 'histories'], 'every data set, initial medians, metric, tolerance, iteration limit, core', 'Tests compare cluster sizes; the value of a median is never checked.',
  [CL + 'kmedians.py', CC + 'kmedians.cpp'], [('assignment', '__update_clusters'), ('medians', '__update_medians')])
p('C14', 'K-Medoids (PAM) only takes improving swaps and reports its state exactly',
  'K-Medoids assigns each object to a nearest medoid, every medoid is an object of its own cluster, each iteration applies a best swap of a medoid and a non-medoid and only if it lowers the total deviation, and it stops in a local optimum or at the iteration limit. Clusters, labels, medoids, number of iterations and total deviation describe the same state, and the initial medoids built greedily minimise the deviation at every addition.',
  ['inputs', 'configurations', 'histories'], 'every data set or distance matrix, initial medoids, metric, tolerance, iteration limit, core', 'Tests use separated samples and check sizes.',
  [CL + 'kmedoids.py', CC + 'kmedoids.cpp', CC + 'pam_build.cpp'], [('swap cost', '__calculate_swap_cost'), ('assignment with second medoid', '__update_clusters'), ('build', 'build')])
p('C15', 'Fuzzy C-Means memberships and centers satisfy the update equations',
  'Every membership row of Fuzzy C-Means is non-negative, sums to one and follows from the distances to the centers by the membership equation, every center is the membership-weighted mean of the objects, and the clusters put each object where its membership is largest. The process stops when the centers move by no more than the tolerance or at the iteration limit.',
  ['inputs', 'configurations'], 'every data set, initial centers, hyper-parameter, tolerance, iteration limit, core', 'Tests check sums to one and sizes on separated samples.',
  [CL + 'fcm.py', CC + 'fcm.cpp'], [('memberships', '__update_membership'), ('centers', '__calculate_centers')])
p('C16', 'X-Means and G-Means respect their bounds and describe a nearest assignment',
  'X-Means and G-Means return at least the initial (unless objects are lacking) and at most the maximum number of clusters; each object is in the cluster of a nearest center and the total error is the sum of squared distances to the centers. Splitting accepted by the chosen criterion never empties a cluster, prediction returns a nearest center, and the same random state reproduces the same result.',
  ['inputs', 'configurations'], 'every data set, initial centers, maximum number of clusters, criterion, repetitions, core', 'Tests use well separated samples.',
  [CL + 'xmeans.py', CL + 'gmeans.py', CC + 'xmeans.cpp', CC + 'gmeans.cpp'], [('structure improvement', '__improve_structure'), ('statistical test', '__is_null_hypothesis / __statistical_optimization')])
p('C17', 'Silhouette scores and the selected numbers of clusters are exact',
  'The silhouette score of every object equals (b-a)/max(a,b) for its mean distances a to its own and b to the nearest other cluster (an object alone in its cluster has none), is within [-1, 1] and is reported at the position of the object, for coordinates and distance matrices and both cores. The silhouette search returns the number of clusters with the best average score in the requested range, and the elbow method the number whose error lies farthest from the line between the first and the last error.',
  ['inputs', 'configurations'], 'every data set, clustering and metric; every range of numbers of clusters', 'Tests check only the range of the scores and a few known samples.',
  [CL + 'silhouette.py', CL + 'elbow.py', CC + 'silhouette.cpp', CC + 'silhouette_ksearch.cpp', 'ccore/include/pyclustering/cluster/elbow.hpp'], [('scores', 'silhouette.__calculate_score'), ('elbow length', 'elbow.__calculate_elbows')])
p('C18', 'Initializers return the requested number of distinct, valid starting points',
  'The random and the K-Means++ initializers return exactly the requested number of centers, each an object of the data, no object chosen twice (as indexes or as points), for every data set with that many objects including duplicates. K-Means++ with the farthest-candidate option adds an object farthest from the centers already chosen, and with several candidates one that a draw proportional to the squared distance could produce, the farthest of those drawn; a fixed random state reproduces the result.',
  ['inputs', 'configurations'], 'every data set, number of centers, number of candidates, random state', 'Tests check counts on a few samples; duplicates and full selection are not covered.',
  [CL + 'center_initializer.py', CC + 'kmeans_plus_plus.cpp', CC + 'random_center_initializer.cpp'], [('selection', 'kmeans_plusplus_initializer.initialize'), ('random', 'random_center_initializer.initialize')])
p('C19', 'Cluster representations convert into each other without loss',
  'Converting a clustering between label list, index lists and object lists, in any order of conversions and with noise, preserves which objects are together and in which cluster, and the reported representation is the current one.',
  ['inputs', 'histories'], 'every clustering (with noise or duplicates among the objects) and every sequence of conversions', 'Tests convert three fixed samples.',
  [CL + 'encoder.py'], [('conversion', 'cluster_encoder.set_encoding')])
p('C20', 'Grid clusterings (CLIQUE, BANG) follow the density of their cells',
  'CLIQUE returns as clusters the connected groups of dense cells (more objects than the threshold, touching along a side) and as noise the objects of the others; every object lies in the one cell its coordinates designate (on a border, the lower one). BANG halves space into blocks that hold every object once with the right amounts and densities, and its clusters are the connected groups of touching leaf blocks whose density exceeds the threshold.',
  ['inputs', 'configurations'], 'every data set (objects on cell borders, equal coordinates, one object), grid size, threshold, level, both cores', 'Tests check sizes; objects on borders are what a sample never contains.',
  [CL + 'clique.py', CL + 'bang.py', CC + 'clique.cpp', CC + 'clique_block.cpp'], [('cells', 'clique_block.capture_points, spatial_block'), ('expansion', 'clique.__expand_cluster, bang.__expand_cluster')])
p('C21', 'CURE merges the closest clusters by their representatives',
  'CURE repeatedly merges the two clusters with the smallest distance between representative points until the requested number remains. The mean of every cluster is the mean of its objects and its representatives are scattered objects of the cluster, at most the requested number, shrunk toward the mean by the compression factor, in both cores.',
  ['inputs', 'configurations'], 'every data set, number of clusters, representatives and compression, both cores', 'Tests check sizes.',
  [CL + 'cure.py', CC + 'cure.cpp'], [('merge', '__merge_clusters'), ('closest cluster bookkeeping', '__closest_cluster, __relocate_cluster')])
p('C22', 'Randomised searches (CLARANS, GA, EMA) return consistent, scored solutions',
  'CLARANS returns distinct medoids with each object in the cluster of a nearest medoid, and the cost it settles for is never worse than any neighbour it examined. The genetic algorithm always holds chromosomes in which each object has one valid gene, its best fitness equals the sum of distances of that chromosome to its centers and never gets worse; expectation-maximisation keeps responsibilities a distribution for every object and assigns each to the most responsible component.',
  ['inputs', 'schedules', 'configurations'], 'every data set, parameters and sequence of random choices', 'Randomised: a test samples one sequence of choices on separated data.',
  [CL + 'clarans.py', CL + 'ga.py', CL + 'ga_maths.py', CL + 'ema.py'], [('neighbour search', 'clarans.__optimize_configuration'), ('mutation, crossover, fitness', 'genetic_algorithm, ga_math'), ('EM step', 'ema.__expectation_step / __maximization_step')])
p('C23', 'Crossing between Python and the C++ core loses nothing',
  'Data, parameters, metrics and results cross between Python and the C++ core unchanged: shapes, orders, values, and empty or ragged contents are preserved for every supported container and type. Deterministic algorithms give the same answer with and without the C++ core whenever their answer is unique, and without a workable core every algorithm falls back to Python.',
  ['inputs', 'configurations'], 'every data container, type and shape; every deterministic algorithm and parameter set', 'Tests run both cores on the same samples but compare sizes only.',
  ['pyclustering/core/pyclustering_package.py', 'pyclustering/core/converter.py', 'pyclustering/core/wrapper.py', 'ccore/src/interface/pyclustering_package.cpp', 'pyclustering/core/metric_wrapper.py'], [('packing', 'package_builder / package_extractor'), ('fallback', 'ccore_library.workable')])
p('C25', 'Graph colouring is proper and DSATUR follows maximal saturation',
  'DSATUR colours every vertex, never gives adjacent vertices the same colour, always colours next an uncoloured vertex of maximal saturation (ties by the number of neighbours) and gives it the least colour absent from its neighbours. The network based colourings move by their equations over exactly the edges of the graph, return, from their dynamics, groups that partition the vertices, and their colour map agrees with the groups.',
  ['inputs'], 'every graph up to the bound, including disconnected, empty and complete ones', 'Tests colour a few sample graphs.',
  ['pyclustering/gcolor/dsatur.py', 'pyclustering/gcolor/hysteresis.py', 'pyclustering/gcolor/sync.py'], [('vertex choice', 'dsatur.__get_maximum_saturation / process'), ('map', 'allocate_map_coloring')])
p('C26', 'Self-organised maps move exactly the winner\'s neighbourhood and capture all',
  'In every training step of a self-organised map the winner is a neuron closest to the pattern and exactly the neurons within the current radius on the grid move, toward the pattern, by their share of the learning rate. The number of winners, the awards and captured objects partition the patterns by the closest neuron, the connections are those of the structure, simulation returns a closest neuron, and a map restored from its dump behaves identically.',
  ['inputs', 'configurations', 'histories'], 'every pattern set, grid shape, connection type, initialisation, learning parameters, both cores', 'Tests check the number of winners.',
  ['pyclustering/nnet/som.py', 'ccore/src/nnet/som.cpp'], [('adaptation', '__adaptation'), ('competition', '__competition'), ('structure', '__create_connections')])
p('C27', 'Pulse-coupled and oscillatory dynamics report exactly what was simulated',
  'In every step of a pulse-coupled network, feeding, linking, threshold and output follow from the previous step by the network equations and its structure, and the synchronous ensembles, spike ensembles and time signal are those contained in the output dynamic. For chaotic and local-excitatory networks the ensembles are the groups of neurons that the recorded dynamic shows to be synchronous, and every neuron is in at most one ensemble.',
  ['histories', 'configurations'], 'every stimulus, structure, parameter set and number of steps, both cores', 'Tests check that some ensemble exists.',
  ['pyclustering/nnet/pcnn.py', 'pyclustering/nnet/legion.py', 'pyclustering/nnet/cnn.py', 'pyclustering/nnet/hysteresis.py', 'ccore/src/nnet/pcnn.cpp', 'ccore/src/nnet/legion.cpp', 'ccore/src/nnet/dynamic_analyser.cpp'], [('states', '__calculate_states'), ('ensembles', 'allocate_sync_ensembles')])
p('C28', 'Phase oscillators obey their equation; ensembles are allocated exactly',
  'Every state of a simulated phase-oscillator network (sync, syncpr, syncnet; Python and C++ core; Euler and Runge-Kutta solvers) follows from the state before by the equation of the network over exactly its connections, with all oscillators moved from the same state, at the requested times and number of steps, and a dynamic simulation stops exactly when the order is reached or does not change any more. Phases stay on the circle. For every state and tolerance the synchronous ensembles contain every oscillator exactly once: an oscillator joins the first ensemble that has an earlier member whose phase is nearer than the tolerance on the circle, and founds a new one only when there is none; indexes given by the user replace numbers one to one. The order parameter is the length of the mean phase vector, the local order the mean of exp(-circle distance) over connections, the correlation matrix |sin| of phase differences, and the phase matrix the phases row by row. Syncnet connects exactly the objects within the radius, with weights being distances scaled to 0..1 on request; hsyncnet never reports more clusters than asked for. Image segmentation reports exactly the ensembles of its two layers above the noise size, each object within one colour segment.',
  ['inputs', 'histories', 'configurations'], 'every phase configuration, tolerance, iteration, network structure, solver and core; every data set and radius', 'Tests simulate a few networks to convergence, where all groups are far apart.',
  ['pyclustering/nnet/sync.py', 'pyclustering/nnet/syncpr.py', CL + 'syncnet.py', CL + 'hsyncnet.py', 'pyclustering/nnet/syncsegm.py', 'ccore/src/nnet/sync.cpp', 'ccore/src/nnet/syncpr.cpp', CC + 'syncnet.cpp', CC + 'hsyncnet.cpp', 'ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp'], [('allocation', 'sync_dynamic.allocate_sync_ensembles'), ('step', '_calculate_phases'), ('connections', 'syncnet.__create_connections'), ('order', 'order_estimator')])
p('C29', 'Sampling, searching and file utilities keep exact sets and orders',
  'Reservoir sampling returns exactly the requested number of distinct positions of the stream in every random outcome, and all of them when the stream is not longer. The ordered searches, list arithmetic, boundary and dimension helpers, data generation, graph and image reading, gray colour conversion, and the vector, matrix and statistics helpers of the C++ core return exactly the elements, orders and shapes their arguments determine.',
  ['inputs', 'schedules'], 'every stream length, sample size and sequence of random draws; every sorted list and key; every well-formed file', 'Tests use single examples.',
  ['pyclustering/utils/sampling.py', 'pyclustering/utils/__init__.py', 'pyclustering/utils/graph.py', 'pyclustering/utils/dimension.py', CL + 'generator.py', 'ccore/src/utils/linalg.cpp', 'ccore/include/pyclustering/utils/stats.hpp', 'ccore/include/pyclustering/utils/algorithm.hpp'], [('reservoir', 'reservoir_r, reservoir_x'), ('search', 'find_left_element'), ('reading', 'read_graph, read_sample')])
p('C30', 'Distance metrics agree with their definitions in every implementation',
  'Every metric - Euclidean, squared, Manhattan, Chebyshev, Minkowski, Canberra, chi-square, Gower and user-defined - gives the value of its definition, is symmetric, non-negative and zero for equal arguments, the same in pure Python, with numpy on single points and on whole matrices, and in the C++ core, whose distance matrices, farthest and average neighbour distances follow from it. A metric object behaves the same after being copied or switched between numpy and pure Python.',
  ['inputs', 'configurations'], 'every pair of points, every metric and degree, every implementation', 'Tests compare a few fixed points.',
  ['pyclustering/utils/metric.py', 'ccore/src/utils/metric.cpp', 'ccore/include/pyclustering/utils/metric.hpp', 'pyclustering/core/metric_wrapper.py'], [('calculators', 'distance_metric')])
p('C31', 'Spiking and Landau-Stuart networks follow their equations step by step',
  'In every step of a simulated Hodgkin-Huxley network the membrane potentials and gates of all neurons follow from the step before by the equations of the model with the given parameters, the external currents being the stimuli within one per cent of noise from the first step on and the synaptic currents those of the pulses generated so far; a pulse belongs to the moment the potential rises to zero, and the link of a neuron is active from when it was above the threshold for the required time until the given delay has passed. In every step of a Landau-Stuart network the amplitudes follow from the step before over exactly its connections, and a further simulation continues from where the last one ended. Reported times are the multiples of the step from zero, and a dynamic written to a file and read back is the same.',
  ['inputs', 'histories', 'configurations'], 'every number of neurons, stimulus, parameter set, number of steps, solver, structure and core', 'Tests compare ensembles after long simulations, which come out the same for many wrong equations.',
  ['pyclustering/nnet/hhn.py', 'pyclustering/nnet/fsync.py', 'pyclustering/core/hhn_wrapper.py', 'ccore/src/nnet/hhn.cpp', 'ccore/src/interface/hhn_interface.cpp'], [('equations', 'hnn_state, hhn_network::neuron_states'), ('pulses and links', '__update_peripheral_neurons, assign_neuron_states'), ('step', 'fsync_network.__calculate')])
