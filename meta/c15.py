P = dict(id='C15', title='Random generators are functions of their seed; discard equals drawing',
 statement='Each generator produces the documented recurrence of its seed: reseeding a used generator gives the same sequence as a fresh one, discarding n outputs equals drawing n outputs, and the output range is the full 64-bit range. The generator whose state must not be all zero never reaches that state after seeding, and no state access is out of bounds.',
 over=['inputs', 'histories'], text='Every 64-bit seed, every state reachable by any history of draws, discards and reseeds, every count.',
 why='The existing tests only use one of them as an input source; equality of histories quantifies over all sequences of operations and seeds.',
 files=['include/arc_utilities/arc_helpers.hpp'],
 mech=[('state step', 'SplitMix64PRNG/XorShift128PlusPRNG/XorShift1024StarPRNG operator()'), ('seed and discard', 'same classes')],
 observe=['sequence of outputs'],
 note='Bit-vector proofs over every state and seed; discard by induction over the count.')
