p('C19', 'A stabilizer code is accepted exactly when its generators commute',
  'Building a stabilizer code from n-k independent generators on n qubits succeeds exactly when all generators commute pairwise; generators that do not commute, or whose number or length does not match n and k, are refused with an AssertionError. Generators may be given as Pauli strings, lists of bits or arrays with the same result, and the code stores exactly the given generators, as strings and as binary vectors.',
  ['inputs', 'configurations'], 'all generator bits, three input forms, (n, k)',
  'tests build about ten well-known codes and a few wrong ones',
  [CD], [('StabilizerCode.__init__', CD)])
p('C20', 'Pauli strings, binary vectors and matrices describe the same operators',
  'The conversions between Pauli strings, binary vectors (x part, z part) and matrices agree: a letter I, X, Z, Y stands for the bit pair (0,0), (1,0), (0,1), (1,1) of its qubit, converting back and forth returns the original, other letters are refused with a ValueError, and the matrix of a vector is the tensor product, first qubit leftmost, of X^x Z^z, so that Y stands for XZ, dense and sparse. The inner product of two vectors is one exactly when their matrices anticommute.',
  ['inputs'], 'all binary vectors, strings and pairs of vectors, number of qubits',
  'tests convert a handful of strings with few Y letters',
  [CD], [('pauli_str_to_binary_representation, binary_rep_to_pauli_str, binary_rep_to_pauli_mat, index_to_qubit_pauli, inner_prod', CD)])
p('C21', 'The normal form generates the same group and is in standard form',
  'For every set of independent commuting generators the normal form of the code has n-k independent rows that generate the same group up to an order of the qubits, which is the given order if the group has a normal form in it and at most two independent elements of Z type, and up to an order of the qubits it is [I A1 A2 | B C1 C2; 0 0 0 | D I E] with blocks of sizes r, n-k-r and k, where r is the reported rank. The generators stored with the code are not changed.',
  ['inputs'], 'all generator matrices, (n, k)',
  'tests check the standard codes, where few pivots vanish or qubits are swapped',
  [CD], [('StabilizerCode.normal_form, rank computation, gaussian elimination', CD)])
p('C22', 'Logical operators commute with the stabilizer and obey the Pauli relations',
  'Every code has k logical X and k logical Z operators that commute with every row of the normal form, and with every given generator when the group has a normal form in the given order and at most two independent elements of Z type; logical X_i anticommutes with logical Z_j exactly when i equals j, and logical operators of the same kind commute with each other. This holds in whatever form the generators are given.',
  ['inputs'], 'all generator matrices, (n, k), input forms',
  'tests check codes that need no reordering of qubits or a few that do',
  [CD], [('StabilizerCode.logical_operators', CD)])
p('C23', 'The encoder matrix is an isometry onto the code space',
  'The matrix of the encoder maps k qubits to n qubits, is an isometry, and its image is the code space: every column is in the plus one eigenspace of every generator (as a Hermitian Pauli operator, so that a product X Z with an odd number of Y letters carries a factor i).',
  ['inputs'], 'all generator matrices, (n, k)',
  'tests compare a few codes without Y letters or diagonal in one basis',
  [CD], [('StabilizerCode.encode_krauss_operators', CD)])
p('C24', 'Measuring a syndrome measures that Pauli operator and nothing else',
  'The syndrome measurement of a stabilizer element measures exactly that Hermitian Pauli operator: outcome zero means its plus one eigenspace, every observable that commutes with it keeps its value, only the ancilla is measured and its outcome is returned. This holds for every Pauli element, given as string or vector, with a supplied or a new ancilla.',
  ['inputs', 'configurations'], 'all Pauli elements, all states of the register, both outcomes',
  'tests measure generators on one encoded state, where a wrong gate on a qubit in a known state is invisible',
  [CD], [('StabilizerCode.single_syndrome_measurement', CD)])
p('C25', 'The encoding circuit prepares the encoded basis state',
  'Started from all zeros, the encoding circuit given k bits is a unitary on the register that prepares the state in the plus one eigenspace of every generator of the normal form (hence, when the normal form is in the given order, an eigenstate of every given generator) on which logical Z_i has the value (-1)^(bit i). Logical X_i maps the encoded state of a bit string to that with bit i flipped.',
  ['inputs'], 'all generator matrices, all bit strings, (n, k)',
  'tests simulate a few codes on one or two bit strings',
  [CD], [('StabilizerCode.encoding_circuit', CD)])
p('C26', 'Decoding returns the encoded qubits; Pauli circuits act as their operator',
  'The decoding circuit is unitary and moves every encoded state (as the encoding circuit prepares it, in the qubit order of the normal form) to the k ancillas: Z and X of ancilla i afterwards are logical Z_i and X_i before, for supplied and for newly allocated ancillas. The circuit of a stabilizer element or of a logical operator X_i, Y_i, Z_i acts on every state as this Pauli operator, up to a global phase.',
  ['inputs', 'configurations'], 'all generator matrices, all encoded states, all Pauli elements and logical operators',
  'tests decode a few basis states of a few codes',
  [CD], [('StabilizerCode.decoding_circuit, apply_stabilizer_circuit, logical_circuit', CD)])
p('C27', 'Concatenated codes have the group of the definition',
  'Concatenating an (n, k) code with an (m, l) code, l dividing n, gives the code with parameters (nm/l, k) whose stabilizer group is generated by the generators of the second code on each of the n/l blocks and by the generators of the first code with the qubits replaced by the logical operators of the blocks. If l does not divide n it is refused with a ValueError.',
  ['inputs'], 'all pairs of codes, (n, k), (m, l)',
  'tests concatenate two standard codes with l = 1',
  [CD], [('StabilizerCode.concatenate_codes', CD)])
p('C28', 'The normalizer lists exactly the undetectable operators',
  'The normalizer of a code lists, each once, exactly the Pauli elements that commute with every stabilizer generator and are not in the stabilizer group, as binary vectors; the undetectable errors are the same elements as Pauli strings.',
  ['inputs'], 'all generator matrices, all Pauli elements, (n, k)',
  'tests look at one code and check a subset of the elements',
  [CD], [('StabilizerCode.normalizer, undetectable_errors', CD)])
p('C29', 'The two-design circuit is undone by its inverse and has the documented rounds',
  'For every outcome of the random choices, the inverse circuit given the returned phases undoes the unitary two-design circuit. The design has 2 ceil(log2(1/epsilon)/n) + 1 rounds, each of phases 0, 2pi/3 or 4pi/3 on single qubits and phases 0 or pi on pairs of qubits followed by a Hadamard on every qubit, and every combination of phases can be drawn.',
  ['inputs', 'histories'], 'all random choices of all rounds, number of qubits, accuracy',
  'tests run a few random circuits; choices that are not drawn are not seen',
  [DA], [('ProjectQDeviceAdaptor.approximate_unitary_two_design, inverse_of_unitary_two_design', DA)])
p('C30', 'The average fidelity estimate is the fraction of shots that return to zero',
  'Every shot prepares all zeros, applies a random two-design unitary, then (encoder,) channel (and decoder) once in this order on the same register, undoes the same unitary and measures every qubit once. The estimate is exactly the fraction of shots in which every qubit is measured zero, with the number of shots asked for, whether registers are reset or newly allocated.',
  ['inputs', 'histories'], 'all random choices, all measurement outcomes, number of shots and qubits',
  'tests estimate noiseless or nearly noiseless channels, where almost every shot returns zero',
  [DA, FC], [('ProjectQDeviceAdaptor.estimate_average_fidelity', DA), ('QDeviceChannel.estimate_average_fidelity_channel, estimate_average_fidelity_error_code', FC)])
p('C31', 'The encoder/decoder search maximises the estimated fidelity',
  'The search over parametrised circuits evaluates, at every point the optimiser asks for, the fidelity estimate of the code whose encoder receives the first M and whose decoder receives the remaining parameters, and prefers the larger fidelity. It reports the optimal fidelity with its positive sign, the encoder and decoder parameters of the optimum and the success flag, respects bounds and iteration limit, and refuses unknown optimisers and a wrong number of bounds.',
  ['inputs', 'configurations'], 'all parameter vectors, measurement outcomes and answers of the optimiser, numbers of parameters',
  'the random search is too slow and noisy to be tested on more than a smoke example',
  [FC], [('QDeviceChannel.optimize_encoder_decoder_average_fidelity', FC)])
p('C32', 'The effective channel encodes, applies the errors and a detecting generator',
  'The effective channel of a stabilizer code has one Kraus operator for every combination of the given k-qubit error operators on the n/k blocks: the encoder, followed by this error, followed by a generator that anticommutes with it if there is one. It maps k qubits to n qubits, the requested objective is optimised for one use with the given options (coherent information over states of every rank), dense and sparse, and its result is returned; unknown objectives and errors of the wrong dimension are refused with a TypeError.',
  ['inputs', 'configurations'], 'all encoder entries and states, error sets, codes, objective, dense/sparse, options',
  'tests run one code with one error set to the end of the optimisation and look at the optimum',
  [FC, CD], [('effective_channel_with_stabilizers', FC), ('StabilizerCode.kraus_operators_correcting_errors', CD)])
p('C33', 'The decoder program maximises average entanglement fidelity over channels',
  'The semidefinite program for optimal decoders maximises the average entanglement fidelity of encoder, n-fold channel and decoder: at the Choi matrix of every operator R its objective equals the sum over Kraus operators E of |Tr(R E)|^2 divided by the squared code dimension. Its constraints state exactly that the variable is positive and trace preserving, the reported value, decoder, status and time are those of the solution, and solver options are those given.',
  ['inputs', 'configurations'], 'all channel, encoder and decoder entries, dimensions, encoder/decoder side, dense/sparse, codes, options',
  'tests solve two or three programs with real symmetric channels, where transposes and conjugates cancel',
  [AF], [('_optimize_average_entang_fid, optimize_decoder, optimize_decoder_stabilizers', AF)])
p('C34', 'Errors are followed by a stabilizer generator that detects them',
  'For every multiple of a Pauli operator, the error-correcting Kraus operator is the product of a stabilizer generator that anticommutes with it and the error; an error that commutes with every generator is returned unchanged. Errors may be given in any number, dense or sparse.',
  ['inputs', 'configurations'], 'all generator matrices, all scaled Pauli errors, dense and sparse',
  'tests use bit-flip codes with X errors of coefficient one',
  [CD], [('StabilizerCode.kraus_operators_correcting_errors', CD)])
p('C35', 'Using a code changes neither the code nor what it was given',
  'After any sequence of queries, circuits, iteration and concatenation a stabilizer code answers exactly like a newly built one: its generators, normal form, rank, logical operators and encoding and decoding circuits are the same. The generators and elements it was given, and another code taking part, are not changed.',
  ['histories', 'inputs'], 'all generator matrices and Pauli elements, all sequences of calls up to the bound',
  'tests use a new code for every call',
  [CD], [('StabilizerCode', CD)])
