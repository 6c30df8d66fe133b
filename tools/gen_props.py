"""Writes properties.jsonl (the single place where the properties are worded)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=None)))


D = 'jax_sgmc/data/core.py'
NL = 'jax_sgmc/data/numpy_loader.py'
prop('P01', 'Full-data mapping visits every observation exactly once, in order',
  "Mapping a function over the full reference data applies it to every observation "
  "exactly once and returns the results in dataset order, for every dataset size, "
  "batch size and cache size, on the host and on the device; when masks are "
  "requested they mark exactly the padding of the last batch, so that masked sums "
  "equal sums over the dataset. The carry is threaded through all batches in order, "
  "and the mapping can be repeated any number of times with the same result.",
  ['inputs', 'configurations', 'histories'],
  "every dataset content, observation count, batch size, cache size and number of "
  "repeated mappings",
  "The tests use two dataset sizes with a few batch sizes and one mapping per state; "
  "ordering and masks of partial batches after repeated mappings are sampled only.",
  [D, NL], [('full_reference_data', D), ('full_data_mapper', D),
            ('ordered batch access of the loaders', NL)],
  ['results of the mapped function', 'masks passed to the function', 'carry'],
  [('cache state', 'mini-batches on the device and the position in them', D)])
prop('P02', 'Random mini-batches are valid rows; epochs are permutations',
  "Every random mini-batch consists of complete observations of the dataset with all "
  "variables taken from the same row. Without shuffling every row can be drawn and "
  "all entries are valid; with shuffling every observation is served exactly once "
  "per epoch, and with in-epoch shuffling the mask marks exactly the entries which "
  "belong to the current epoch. Chains with different seeds are independent, and "
  "chains never change the draws of each other.",
  ['inputs', 'configurations', 'histories'],
  "every dataset, seed outcome (any permutation or index drawn), batch size, cache "
  "size and number of draws",
  "Tests fix the seed, so that they see one permutation; a row mix-up, a repeated or "
  "lost observation at an epoch boundary for other sizes stays unseen.",
  [D, NL], [('random_reference_data', D), ('NumpyDataLoader random chains', NL),
            ('DeviceNumpyDataLoader random chains', NL)],
  ['returned batch', 'returned mask'],
  [('chain state', 'permutation, position in the epoch, generator', NL)])
prop('P03', 'Caching batches on the device is transparent',
  "The sequence of mini-batches delivered to a solver is the sequence produced by the "
  "data loader, without loss, repetition or reordering, for every number of cached "
  "batches. The information returned with a batch (total observation count, batch "
  "size, mask) belongs to that batch.",
  ['histories', 'configurations', 'inputs'],
  "every cache size, batch size, position in the cache and number of draws",
  "Tests compare two cache sizes for one seed; the refill condition must hold at every "
  "cache position.",
  [D], [('refill on exhausted cache', D), ('random_reference_data', D)],
  ['batches returned by successive draws'],
  [('cache position', 'line of the next batch', D)])
prop('P04', 'A restored data loader continues the stream of batches exactly',
  "A data loader chain that is restored from a checkpoint delivers the same batches "
  "and masks as the original chain would have delivered from the moment the "
  "checkpoint was taken. Taking a checkpoint, or drawing further batches after it, "
  "neither changes the running chain nor the checkpoint, and a checkpoint can be "
  "restored repeatedly.",
  ['crash_points', 'histories', 'inputs'],
  "every checkpoint position in the stream, dataset, seed outcome, chain type and "
  "number of batches drawn before and after",
  "Tests take a checkpoint at one position and restore it once.",
  [NL, D], [('save_state / load_state', NL)],
  ['batches after the restore'],
  [('chain state', 'permutation, position in the epoch, generator state', NL)])
prop('P05', 'Batch requests are served once per chain and step, on any schedule',
  "When several devices request data from the host concurrently, every device "
  "receives the same stream of data it would receive alone for its own chain: each "
  "newly requested token yields new data exactly once and a repeated request of the "
  "current token returns the data of that token. Requests which skip or go back in "
  "the stream are reported (an error in strict mode, a warning otherwise).",
  ['schedules', 'histories'],
  "every interleaving of the requests of several devices and chains",
  "The tests run on one device in one order.",
  [D], [('request bookkeeping of the host callback', D)],
  ['data returned to a request'],
  [('token', 'counts the requests of a chain', D)])
PT = 'jax_sgmc/potential.py'
prop('P06', 'Stochastic and full potential equal the scaled negative log-posterior',
  "The potential of a mini-batch is minus the log-prior minus N/n times the sum of the "
  "n log-likelihoods, divided by the temperature, and the full potential is minus the "
  "log-prior minus the sum of the log-likelihoods of all observations, divided by the "
  "temperature, independent of batch size and padding. All evaluation strategies and "
  "batched or unbatched likelihoods agree in value, gradient, reported likelihoods "
  "and model state.",
  ['inputs', 'configurations'],
  "every likelihood, prior, sample, dataset, batch size, mask and temperature",
  "The tests use one likelihood with random data of three sizes.",
  [PT, D], [('minibatch_potential', PT), ('full_potential', PT)],
  ['returned potential, gradient, likelihoods and state'])
SC = 'jax_sgmc/scheduler.py'
prop('P07', 'Schedules deliver the documented parameter at every iteration',
  "Step size, temperature, burn-in and thinning seen by the integrator in every "
  "iteration follow the documented formulas for all parameters: polynomial decay with "
  "exact first and last values, constant temperature, burn-in for exactly the "
  "given number of iterations, and dual averaging driven by the acceptance ratio. "
  "Random thinning keeps exactly the requested number of distinct iterations, all "
  "after burn-in and weighted by the step size; default schedules and parameters given at initialisation are "
  "honoured.",
  ['inputs', 'configurations', 'histories'],
  "every schedule parameter, total number of iterations, iteration index, acceptance "
  "ratio history and random selection",
  "The tests sample a few parameter combinations and seeds.",
  [SC], [('specific schedules', SC), ('init_scheduler', SC)],
  ['schedule at each iteration', 'number of collected samples'])
IO, SO = 'jax_sgmc/io.py', 'jax_sgmc/solver.py'
prop('P08', 'Saved samples are exactly the kept iterates of each chain, in order',
  "The samples returned for a chain are exactly its states after the iterations the "
  "schedule keeps (not in burn-in, accepted by the thinning), each once, in order and "
  "with all variables of one sample from the same state. This holds for every saving "
  "backend, which all deliver the same samples, and for every number of chains, where "
  "chains neither mix nor influence each other.",
  ['inputs', 'configurations', 'histories'],
  "every sequence of states, keep-decisions, number of chains, interleaving of chains "
  "and saving backend",
  "The tests compare two backends for one schedule.",
  [IO, SO, SC], [('save / no_save', IO), ('MemoryCollector, HDF5Collector, JSONCollector', IO),
                 ('mcmc', SO)],
  ['returned samples', 'content of the written files'],
  [('collector buffers', 'samples by chain', IO)])
prop('P09', 'Trees survive the conversion to named dictionaries unchanged',
  "Converting a tree of arrays to a nested dictionary, to a file representation or to "
  "a list of named leaves and back restores every leaf at its own place, and each "
  "name addresses the leaf it names. This holds for every tree of dictionaries, "
  "lists, tuples and named tuples.",
  ['inputs', 'programs'],
  "every leaf value and every tree structure up to the stated size",
  "The tests convert one or two trees whose leaf order coincides with the order of "
  "the names.",
  [IO], [('pytree_to_dict, dict_to_pytree, pytree_dict_keys', IO)],
  ['restored trees', 'stored names and values'])
IN = 'jax_sgmc/integrator.py'
prop('P10', 'Integrators perform exactly their published transition',
  "One update of every integrator (Langevin diffusion, OBABO, reversible leapfrog, "
  "SGHMC with friction) is the published map of position, momentum, step size, "
  "temperature, friction, mass and stochastic gradient, with injected Gaussian noise "
  "of exactly the published covariance. The reported energies, likelihoods and model "
  "states belong to the same evaluation, and the data chain advances once per "
  "gradient evaluation.",
  ['inputs', 'configurations'],
  "every sample, momentum, gradient function, step size, temperature, friction, mass, "
  "noise and data state",
  "The tests check convergence statistics of toy problems; wrong noise scaling, wrong "
  "temperature or a stale gradient shifts results less than their tolerance.",
  [IN], [('update functions of the integrators', IN)],
  ['next position and momentum', 'energies'],
  [('integrator state', 'position, momentum, energies, key, data state', IN)])
prop('P11', 'Metropolis-Hastings steps use the exact acceptance probability',
  "AMAGOLD and SGGMC accept a proposal with exactly the published probability computed "
  "from the true potential before and after and the energies accumulated by the "
  "proposal. On acceptance the proposal becomes the state; on rejection the previous "
  "sample and model state are kept and the momentum is reversed, while data and noise "
  "move on. A proposal whose energy is undefined (NaN) or which has probability "
  "zero (infinite energy) is never accepted, and the reported acceptance ratio is always a probability.",
  ['inputs', 'configurations'],
  "every state, proposal, energy, temperature, uniform draw and mass adaption",
  "The tests run a chain on a toy problem and compare moments.",
  [SO], [('amagold', SO), ('sggmc', SO)],
  ['state after the step', 'reported acceptance ratio'],
  [('solver state', 'potential, integrator state, key, mass state', SO)])
prop('P12', 'Replica exchange swaps chains with the corrected probability',
  "Parallel tempering advances both chains with their own temperature and swaps the "
  "two complete chain states with the published probability, corrected by the running "
  "estimate of the variance of the stochastic potential. Only samples of the cold "
  "chain are returned. Without well-defined energies there is no swap.",
  ['inputs', 'configurations'],
  "every pair of chain states, temperatures, variance, correction factor, step count "
  "and uniform draw",
  "The tests check only that the result of a toy problem is plausible; they even "
  "passed with the swap decision inverted.",
  [SO, IN], [('parallel_tempering', SO)],
  ['sample of the cold and hot chain', 'variance estimate'])
prop('P13', 'Random keys are never reused',
  "Every random number generator key is consumed at most once along a chain: all "
  "random draws of initialisation and of successive updates of any solver and "
  "device-side data loader use distinct keys, all derived from the keys given to the "
  "chain, and a state never carries a key which was already used. Hence all parts of "
  "the parameter tree receive independent noise in every update, and chains started "
  "with different keys never use the same random numbers.",
  ['histories', 'configurations', 'programs'],
  "every solver composition and number of updates within the bound, tracked through "
  "the real key operations",
  "Reused keys produce plausible but correlated numbers, which no sampled test "
  "notices.",
  [IN, SO, SC, NL], [('key splitting in states', IN)],
  ['keys passed to random draws'],
  [('key', 'PRNG key in every state', IN)])
AD = 'jax_sgmc/adaption.py'
prop('P14', 'Adaption estimates the documented statistics for every tree',
  "RMSprop, mass-matrix and Fisher-information adaption compute the documented "
  "recursions for every sequence of samples and gradients, give symmetric, consistent "
  "inverse and square-root matrices, and stop adapting after burn-in. Results are the "
  "same for every tree structure holding the same numbers.",
  ['inputs', 'histories', 'programs'],
  "every sequence of samples and gradients up to the bound, every parameter and tree "
  "structure listed",
  "The tests check statistics over one random sequence.",
  [AD], [('rms_prop', AD), ('mass_matrix', AD), ('fisher_information', AD),
         ('adaption', AD)],
  ['manifold / mass returned by the adaption'],
  [('adaption state', 'running statistics', AD)])
TU, LM = 'jax_sgmc/util/tree_util.py', 'jax_sgmc/util/list_map.py'
prop('P15', 'Tree algebra and list-of-chains mapping are exact',
  "Addition, scaling, multiplication, inner and matrix products of parameter trees equal "
  "the same operation on the flattened vectors, and "
  "mapping a function over a list of chains gives each chain its own result, in "
  "order, for sequential, vectorised and parallel evaluation.",
  ['inputs', 'programs'],
  "every leaf value and the tree structures listed",
  "The tests use one tree with random values.",
  [TU, LM], [('tree operations', TU), ('list_vmap, list_pmap', LM)],
  ['results of the operations'])
prop('P16', 'Ready-made samplers wire the documented components together',
  "The ready-made samplers (SGLD, replica exchange SGLD, AMAGOLD, SGGMC, SGHMC, OBABO) "
  "pass every user setting to the component it documents: step-size range, burn-in, "
  "number of accepted samples, temperature, friction, integration steps, mass, batch "
  "and cache size, model state and iterations; a request for more samples than there "
  "are iterations after burn-in is refused. Every chain starts from its own initial "
  "sample and uses its own random numbers, and results are returned per chain in the "
  "order given.",
  ['inputs', 'configurations'],
  "every setting value, number of chains and initial sample",
  "The tests run each sampler with one setting and accept a wide range of results.",
  ['jax_sgmc/alias.py'], [('sampler factories', 'jax_sgmc/alias.py')],
  ['samples returned by the sampler'])

if __name__ == '__main__':
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
