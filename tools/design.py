"""Writes DESIGN.md: tools/design.md with the per-property sections (from D, the drivers and the model-checking configurations) and the findings."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from properties import P
from notes import NOT_CLAIMED
D = {}
# id -> (state and transitions, oracle: how a recorded execution is decided, why beyond the tests)
D['C01'] = ('`Parallel.tla`: elements divided into consecutive chunks, asynchronous workers and the caller, wait for all; every division and interleaving.',
            'the header `parallel.hpp` is compiled with stand-ins for threads and futures (`harness/cpp/shim.hpp`) under a controlled scheduler; every recorded history (begin/end of bodies, return) must be a behaviour of the specification.',
            'the tests run one schedule on one machine; here the schedule is the explored input, and the number of hardware threads too.')
D['C02'] = ('`ThreadPool.tla`: clients, queue, workers, task states, waiting, destruction; tasks may wait for each other as long as there are threads; safety and termination under fairness.',
            'the real pool, task and spinlock sources are compiled with the same stand-ins and scheduled depth-first with bounded preemptions and at random; the history of submissions, executions and returns of waiters must be legal, and every run must end (a state in which every thread is blocked is a violation).',
            'lost wake-ups and double execution need one particular interleaving.')
D['C03'] = ('`KdTree.tla`: nodes with identity, point, splitting dimension; insertion, removal with replacement by the least node of a subtree; invariant: the set of nodes and the ordering, and that the pruned search is exhaustive search.',
            'after every operation the whole tree is dumped and TLC checks contents = inserted minus removed and the ordering invariant by itself; look-ups and radius queries are compared with exhaustive search computed in TLA+. The shape is not prescribed.',
            'bugs of removal show up only after particular histories with equal coordinates.')
D['C04'] = ('`CfTree.tla`: features (n, ls, ss), insertion with free choice of the path, splits, merges; invariants of structure and sums.',
            'the tree is recorded after every insertion; sums are recomputed exactly from the points, capacity limits, counters and heights are checked; summary measures are compared with their definition over the points; BIRCH assignments with the nearest summary.',
            'sums must hold after every history of insertions, not for the sampled files.')
D['C05'] = ('`Adjacency.tla`: graph as a set of weighted arcs under updates, the five standard structures, and the three representations refining it (matrix, words of bits with carry, lists).',
            'every collection is driven by recorded update histories and queried completely after each; the graph, weights and neighbours must be those of the abstract graph. Structures for all sizes 1..40 and 64..70, every grid shape.',
            'word boundaries and non-square grids are outside the sizes tests use.')
D['C06'] = ('`Clusterer.tla`: a session with several instances of any clustering algorithm - create, process, process again, ask - with the data as part of the state; invariants Intact, Whole, Told, Agree.',
            'recorded sessions of 26 algorithms are replayed through the actions: the data never change, answers partition the objects, asking twice gives the same, a second processing does not add to the first, deterministic algorithms agree between instances and containers.',
            'tests check sizes of clusters on sample files after one run.')
D['C07'] = ('`Dbscan.tla`: arbitrary visiting order and growth through core objects; TLC proves that every terminal state is the set of density-connected components (declarative meaning).',
            'clusters and noise of the code must satisfy the declarative meaning computed exactly on the lattice; for C++, Python, matrices, arrays, pickled instances.',
            'ties at the radius and the border objects between two clusters.')
D['C08'] = ('`Optics.tla`: visiting with reachability updates, least reachable object next; ordering analyser (level counting, bisection).',
            'core distances, reachability distances and the visiting order are replayed step by step; clusters against the density meaning; the number of clusters of a level and the radius found against the definition over the ordering.',
            'ordering errors leave sizes of clusters unchanged on sample data.')
D['C09'] = ('`Agglomerative.tla`: merging a closest pair (exact rational link distances), four links; TLC proves the meaning of single and complete link.',
            'the hierarchy n, n-1, ..., 1 is recorded by running with every number of clusters; each step must be the merge of a closest pair.',
            'wrong incremental distances agree with right ones on separated samples.')
D['C10'] = ('`Sequential.tla`: BSAS, MBSAS, TTSAS as transition systems object by object with exact rational representatives.',
            'the specification is run on the same input and the set of its outcomes (ties either way) must contain the clusters and representatives reported.',
            'objects exactly at a threshold and representatives after several additions.')
D['C11'] = ('`Rock.tla`: links from adjacency, goodness, merges until K or no links.',
            'each step n..1 must be a merge with maximal goodness (compared exactly, by powers for fractional exponents).',
            'the order of merges is not visible in the sizes tests check.')
D['C12'] = ('`Lloyd.tla` (means): assignment to a nearest center, ties free, empty centers disappear, movement, termination; TLC checks descent and convergence.',
            'the history from the observer or from runs with iteration limits 1, 2, 3, ... is replayed through the actions; the total error, the stop and the prediction are compared too.',
            'the iterations between start and result are not looked at by the tests.')
D['C13'] = ('`Lloyd.tla` (medians).', 'as C12 with runs limited to 1, 2, 3, ... iterations.', 'as C12; medians of even amounts and several dimensions.')
D['C14'] = ('`KMedoids.tla`: greedy build and swap steps over a distance matrix, coincident objects as classes.',
            'runs with iteration limit 0, 1, 2, ...: every iteration a best and improving swap, end in a local optimum; labels, clusters, medoids, deviation describe one state.',
            'a swap that is not the best, or not improving, still gives plausible clusters.')
D['C15'] = ('`Fcm.tla`: one iteration as equations in fixed point, and exactly in rationals for m = 2; TLC checks that the fixed-point reading is sound and sharp.',
            'memberships and centers of each iteration satisfy the equations within the rounding bound derived in the specification.',
            'tests look at the final clusters only.')
D['C16'] = ('`Splitting.tla`: improvement by Lloyd steps, splits accepted by a criterion, bounds; G-Means loop.',
            'the reported clustering must be a nearest assignment to the reported centers, error exact, bounds kept, the final state not improvable by the criterion evaluated in the specification; same seeds same results.',
            'when clusters vanish during improvement, bounds and criteria break.')
D['C17'] = ('`Selection.tla`: silhouette as exact rationals, search as a loop over the range with the best seen, elbow by distances from the line.',
            'scores recomputed by TLC; the selected numbers against the definition (ties either way).', 'scores in other orders of clusters and objects; ranges with steps.')
D['C18'] = ('`Seeding.tla`: choosing the next center by drawn numbers over cumulative squared distances; distinctness.',
            'the random draws of the Python initializer are observed, so the set of candidates drawn is decided exactly; for the C++ initializer the outcome must be possible for some draws.',
            'wrong probabilities and repeated choices are hidden by randomness.')
D['C19'] = ('`Encoder.tla`: three representations and conversions as a graph; what they mean is counted per cluster and value.',
            'histories of conversions; after each the representation must be well-formed and mean the same as at the beginning.', 'duplicates, noise, empty clusters.')
D['C20'] = ('`Grid.tla`: cells and dense connected groups (CLIQUE), halving blocks and touching leafs (BANG), exact borders.',
            'cells, blocks, directory, clusters and noise recomputed by TLC on lattice data.', 'objects exactly on borders, constant dimensions, three dimensions.')
D['C21'] = ('`Cure.tla`: scattered representatives shrunk to the mean, merge of closest clusters.',
            'hierarchy n..1: each step merges a closest pair; means exact, representatives are legal scattered points.', 'a stale queue or tree changes merges that sizes do not show.')
D['C22'] = ('`Clarans.tla`, `Genetic.tla`, `Em.tla`: neighbours and best of searches; populations under select/cross/mutate; E and M steps.',
            'CLARANS: the starting medoids are recorded, the answer is not worse than any of them, and with enough neighbours examined it is a local optimum; GA: chromosomes valid, fitness recomputed, best never worse; EM: responsibilities and parameters of each iteration from the ones before.',
            'random searches: tests can only check sizes.')
D['C23'] = ('`Crossing.tla`: value -> package -> vectors of the core -> package -> value; the checks of the loader one after another.',
            'packages are built by the real packer, sent through the real C++ vectors (`harness/cpp/echo.cpp`) and extracted; results with and without the core are compared for inputs without ties; the loader runs on prepared library files in subprocesses.',
            'empty, ragged, deep and extreme contents; damaged libraries.')
D['C25'] = ('`Coloring.tla`: DSATUR steps with ties free, and groups of synchronous neurons.',
            'the colouring must be the outcome of some run of DSATUR; hysteresis and synchronous colourings: groups from the recorded dynamic, map agrees with groups.', 'all graphs up to 4 or 5 vertices instead of samples.')
D['C26'] = ('`Som.tla`: grid, radii (with decay), winners, adaptation, capture.', 'the whole training is replayed step by step in fixed point from the recorded initial weights (ties of the winner either way) and must end in the recorded weights; awards, captured objects, connections, densities, dump.',
            'neighbourhoods at the borders of maps and along the decay of the radius.')
D['C27'] = ('`Pcnn.tla` (exact thousandths), `Ensembles.tla` (spikes, ensembles), `Oscillatory.tla` (CNN, hysteresis, LEGION equations).',
            'each recorded state must follow from the one before; ensembles, time signal, spikes recomputed from the recorded dynamic.', 'tests compare shapes of the dynamics.')
D['C28'] = ('`Phases.tla`: allocation of ensembles oscillator by oscillator, order parameters, Euler/Runge-Kutta steps of sync, syncpr, syncnet and hsyncnet with sine, cosine tables.',
            'recorded phases: every step follows from the equation over the connections; ensembles, orders, matrices recomputed from the state; dynamic simulations stop exactly when the rule says; clusters of syncnet from its dynamic.',
            'phases around zero, mirrored or opposite phases; number of steps by float rounding.')
D['C29'] = ('`Utils.tla`: reservoir sampling over all random outcomes (uniformity proved by counting), ordered search and list helpers.',
            'results recomputed from the arguments; sampling: every outcome valid and every sample reachable.', 'every stream length and target, including ones outside the list.')
D['C30'] = ('`Metric.tla`: metric objects under switching and copying; definitions in exact fractions; axioms checked over a lattice; `MetricMatrixTrace.tla`: distance matrices of the C++ core.',
            'values of each call against the definition (roots by comparison of powers).', 'degrees, zero ranges, negative coordinates, object against matrix.')
D['C31'] = ('`Neuron.tla`: Hodgkin-Huxley neurons with pulses and links, Landau-Stuart oscillators, Runge-Kutta in fixed point.',
            'each recorded step of the potentials (and gates) must follow from the step before; gates and links the record does not show are carried by the specification; times and files of dynamics are compared.',
            'tests of these networks only look at ensembles after long simulations.')
try:
    from design_more import MORE; D.update(MORE)
except ImportError:
    pass

def drv(i):
    g = glob.glob(V + '/harness/props/%s_*.py' % i.lower())
    if not g: return None
    ns = {}
    for n in ast.parse(open(g[0]).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('SPECS', 'SPEC', 'CFG', 'MC', 'RULE'):
            try: ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return g[0], ns

def cfg(f):
    t = open(V + '/spec/' + f).read()
    c = re.search(r'CONSTANTS?(.*?)(?=INVARIANT|PROPERT|CHECK_|SPECIFICATION|$)', t, re.S)
    inv = re.findall(r'(?:INVARIANTS?|PROPERT(?:Y|IES))((?:\s+(?!INVARIANT|PROPERT|CONSTANT|CHECK_|SPECIFICATION)\w+)+)', t)
    return ' '.join(c.group(1).split()) if c else '', ' '.join(' '.join(x.split()) for x in inv)

out = []
for (i, title, *_r) in P:
    d = drv(i)
    out.append('### %s %s' % (i, title))
    if not d: out.append('Not claimed: %s\n' % NOT_CLAIMED.get(i, 'no check yet')); continue
    f, ns = d
    st, orc, why = D[i]
    out.append('- Specification: ' + st)
    for (m, c, tiers) in ns.get('MC', []):
        k, inv = cfg(c)
        out.append('  - TLC explores `%s` (%s): %s; checks %s' % (c, ', '.join(tiers), k or 'no constants', inv))
    out.append('- Oracle and binding: ' + orc)
    out.append('- Executions (`%s`): %s' % (os.path.relpath(f, V), ns.get('RULE', '')))
    out.append('- Beyond the tests: %s\n' % why)
kf, fx = [], []
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('{'):
        j = json.loads(l); kf.append('- **%s** `%s`: %s' % (j['property'], j['key'], j['what']))
    elif l.startswith('fixed:'): fx.append('- ' + l[7:].replace('property=', ''))
pl = []
notes = json.load(open(V + '/tools/planted.json'))
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    pl.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], notes.get(n, '')))
t = open(V + '/tools/design.md').read()
for k, v in (('PROPERTIES', out), ('KNOWN', kf), ('FIXED', fx), ('PLANTED', pl)): t = t.replace('@@%s@@' % k, '\n'.join(v))
open(V + '/DESIGN.md', 'w').write(t)
print(len(t.splitlines()), 'lines')
