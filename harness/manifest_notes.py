NOTES = {
 'C01': ('TLA+ model of feature types, couplings and irreps (TLC); enumerated configurations replayed into the layers; TLC validation of recorded fixed-point outputs',
         'Types, occupied channels, coupling paths and group action decided by TLC on every recorded call; configurations sampled from the enumerated set, inputs generic; dense-sum reference recorded by the harness.'),
 'C02': ('TLA+ state machine of layer programs (TLC); enumerated programs replayed into the code; TLC validation of recorded fixed-point outputs',
         'All programs up to length 3 in the model; a pairwise-covering sample is replayed with generic inputs and parameters and six O(3) elements.'),
 'C03': ('TLA+ model of graph layers and feature types (TLC); enumerated configurations replayed; TLC validation of recorded fixed-point outputs',
         'Configurations pairwise-covered from the enumerated set; generic inputs; six O(3) elements.'),
 'C04': ('TLA+ rewrite system on graphs (TLC, exhaustive and simulation); rewrite sequences replayed into the layers; TLC trace validation of recorded outputs',
         'Rewrite closure is exhaustive for small graphs; sampled sequences are replayed on all graph layers.'),
 'C05': ('TLA+ graph model (TLC), enumerated lists replayed into the code, TLC trace validation of every call',
         'Exhaustive for small lists in the model; the code is checked on the enumerated lists plus seeded larger ones against the exact integer/rational definition in TLA+. Trusts numpy for recording.'),
 'C06': ('TLA+ graph model (TLC), enumerated lists replayed into the code, TLC trace validation of every call',
         'Exhaustive for lists up to the model bounds, plus seeded larger lists; each recorded conversion is decided by TLC on bags of edges.'),
 'C07': ('TLA+ model of the cache-file protocol with processes, crashes and damaged files (TLC); simulated schedules replayed into real processes; TLC validation of the recorded histories',
         'Model exhaustive within its bounds (and shown to reject in-place writing); the replayed schedules are a seeded sample that covers every action pair; damage is a fixed set of truncations and substitutions.'),
 'C08': ('TLA+ state machine of the configuration (TLC); simulated histories of changes and calls replayed; TLC trace validation',
         'All call sites with a configurable default; histories sampled by TLC simulation; results identified by comparison with explicit-argument references.'),
 'C09': ('TLA+ fixed-point specification of the real harmonics (recurrences model checked against exact polynomials, TLC); enumerated directions and options replayed; TLC validation of the recorded values',
         'Recurrences verified against exact integer polynomials and addition theorem for every enumerated direction; every recorded value is decided by TLC (about 1e-3), and against a float64 oracle of the same recurrence to 60 ppm.'),
 'C10': ('TLA+ exact rational representations (TLC) and fixed-point harmonics; recorded Wigner-D matrices validated by TLC',
         'Exact comparison for six rational O(3) elements, harmonics covariance, orthogonality, block structure for all sampled rotations; degrees up to 3 (quick) or 4.'),
 'C11': ('TLA+ exact rational representations (TLC); every block of the recorded coefficient tables validated by TLC',
         'All triples of degrees up to 3 (quick) or 5; intertwining on three rotations which generate a dense subgroup.'),
 'C12': ('TLA+ fixed-point specification of the real harmonics (TLC); recorded conversions validated by TLC',
         'The tensor of every unit irrep contracted with enumerated directions must be the harmonic polynomial; round trips and equivariance on generic inputs.'),
 'C13': ('TLA+ state machine of rotation constructors over exact rational and fixed-point matrices (TLC); enumerated constructor calls replayed; TLC validation of the recorded matrices',
         'Degenerate axes, angles and vector pairs enumerated and mixed into batches; every recorded matrix decided by TLC (about 1e-3) and by a float64 oracle to a few ppm.'),
 'C14': ('TLA+ specification of rule selection and exactness (TLC); enumerated requests replayed; TLC validation of the recorded grids',
         'All requests in the tables and around their ends; every rule of both families is recorded and must integrate all harmonics up to its precision.'),
 'C15': ('TLA+ exact specification of norms of scaled integer vectors (TLC); enumerated scale mixtures, axes and shapes replayed; TLC validation of the recorded values and derivatives',
         'Vectors with integer norms scaled by powers of two from 2^-118 to 2^117, mixed with zeros in one array; derivatives decided up to 2^55, finiteness beyond.'),
 'C16': ('TLA+ fixed-point specification of all radial sets, windows, cutoffs, mappings and switches with their identities (TLC); enumerated calls replayed; TLC validation of the recorded values',
         'Values decided by TLC for up to nine functions (about 1e-3), by a float64 oracle to a few ppm for all counts; partition of unity, ranges, monotonicity and vanishing are decided by TLC on the recorded values.'),
 'C17': ('TLA+ fixed-point specification of all activation functions and gates with their identities (TLC); enumerated calls replayed; TLC validation of the recorded features',
         'Scalars in [-7.9, 7.9] decided by TLC (about 1e-3) and a float64 oracle (8 ppm); accuracy and finiteness of values and derivatives up to 1e38.'),
 'C18': ('TLA+ specification of coupling paths, fans and variance rules (TLC); enumerated kernels initialised by the code; TLC validation of the recorded per-path statistics',
         'All type triples up to degree 3 in the model, a pairwise-covering sample replayed; statistics of 16384 features per path (variance to 0.8-7 percent); single, half and complex types.'),
 'C19': ('TLA+ state machine of matrix assembly from irreps (TLC); enumerated block structures replayed; TLC validation of the recorded matrices',
         'All block structures with up to three parts of degree up to 2 in the model, a pairwise-covering sample replayed; placement of irreps exact, rotation of the matrix in fixed point (about 1e-3) and by float64 reference (1e-4).'),
 'C20': ('TLA+ state machine of feature programs on exact integer values (TLC); enumerated programs and shape pairs replayed; TLC validation of every recorded component',
         'All programs of length 2 with degrees up to 2 in the model, covering sample plus seeded longer programs (degrees up to 4) replayed; comparison is exact. Requests: pairs of shapes enumerated by TLC.'),
 'C23': ('TLA+ fixed-point specification of the stages of a basis expansion (TLC); enumerated options replayed; TLC validation of every recorded entry',
         'All option combinations in the model; a pairwise-covering sample with all radial families replayed at lengths around the special points; entries decided by TLC (about 1e-3) and a float64 oracle (4e-4); first derivatives finite at every scale, second ones at zero and above 1e-9.'),
 'C24': ('TLA+ specification of the lattice of types and of roundoff bounds (TLC); enumerated layer requests and function families replayed in several types; TLC validation of recorded types and errors',
         'All combinations of layer kind, input, parameter and requested types in the model, a pairwise-covering sample replayed; errors counted in roundoffs of the narrowest type against double precision and closed formulas; arguments of moderate size (no overflow in half precision).'),
 'C21': ('TLA+ specification of the valid requests of every entry point (TLC); enumerated valid and invalid requests replayed; TLC validation of the recorded exceptions and shapes',
         'About 40000 small requests enumerated with the exceptions each deserves; a sample that covers pairs of arguments and every single-argument defect is replayed; only documented rejections count.'),
 'C22': ('TLA+ model of transformation programs on batched functions (TLC); enumerated programs interpreted with the real transformations; TLC validation of the recorded results and derivatives',
         'All programs of up to three transformations in the model (which tells non-elementwise primitives apart); a covering sample replayed on 23 families of functions and layers; derivatives against central differences in double precision where these are steady.'),
}
