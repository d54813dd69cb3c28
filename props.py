#!/usr/bin/env python3
"""source of properties.jsonl and MANIFEST.json:  python3 props.py"""
import json, os, importlib.util, re
HERE = os.path.dirname(os.path.abspath(__file__))
K, CH, CO, OP, PA, CHOI = ('PyQCodes/chan/_kraus.py', 'PyQCodes/chan/channel.py', 'PyQCodes/chan/_coherent.py', 'PyQCodes/_optimize.py',
                           'PyQCodes/chan/param.py', 'PyQCodes/chan/_choi.py')
CD, FC, DA, AF = 'PyQCodes/codes.py', 'PyQCodes/find_codes.py', 'PyQCodes/device_adaptor.py', 'PyQCodes/avgfid/avg_fidelity.py'
P = []


def p(id, title, statement, over, text, tests, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=level_note, _na=na))


p('C01', 'A channel used n times is the Kraus sum of its n-fold tensor power',
  'For every set of Kraus operators and every input matrix, applying the channel n times in parallel returns the sum of K rho K^dagger over all n-fold tensor products K of the given operators. The answer does not depend on the dense or sparse representation, on the form in which the operators are given, or on how the operators are grouped into mutually orthogonal sets.',
  ['inputs', 'configurations'], 'all Kraus entries, all input matrices, dense/sparse, n, groupings into orthogonal sets',
  'tests apply a few named channels (dephasing, erasure, depolarizing) to sampled states; a wrong conjugate, order or batch boundary that cancels for real or diagonal operators is invisible to them',
  [K, CH], [('AnalyticQChan.channel', CH), ('DenseKraus.channel, SparseKraus.channel, update_kraus_operators', K)])
p('C02', 'Adjoint maps are the Hilbert-Schmidt adjoints',
  'The adjoint of a channel maps X to the sum of K^dagger X K over the tensored Kraus operators, and the adjoint of the complementary channel maps X to the sum over i,j of X_ij K_i^dagger K_j. For every pair of matrices Tr(X^dagger N(rho)) equals Tr(N^dagger(X)^dagger rho), for dense, sparse and Choi-matrix channels.',
  ['inputs', 'configurations'], 'all Kraus entries, all pairs of matrices, n, dense/sparse/Choi representation, rectangular operators',
  'tests check the adjoint of one or two real channels; adjoints differ from inverses, transposes and conjugates only for generic complex operators',
  [K, CH, CHOI], [('channel(adjoint=True), entropy_exchange(adjoint=True)', CH), ('DenseKraus / SparseKraus adjoints', K), ('ChoiQutip.channel', CHOI)])
p('C03', 'Answers do not depend on the calls made before',
  'Whatever sequence of queries with whatever numbers of uses was made on a channel object before, each query (channel, adjoint, complementary channel, fidelities, Kraus count) returns what it would return on a freshly built object. Queries do not modify the matrices passed to them.',
  ['histories', 'inputs'], 'sequences of calls with changing n on one object, all Kraus entries and inputs',
  'the object caches tensored operators and their conjugates; tests use one n per object or fixed orders',
  [K, CH], [('AnalyticQChan._update_channel_tensored', CH), ('update_kraus_operators and cached conjugates', K)])
p('C04', 'The complementary channel has entries Tr(A_i rho A_j^dagger)',
  'For n uses the complementary channel returns the matrix with entries Tr(A_i rho A_j^dagger) over the n-fold tensored Kraus operators. If the user declared mutually orthogonal groups of operators, it returns exactly the diagonal blocks of that matrix that belong to the (products of) groups, of whatever sizes the groups are, so that no eigenvalue is lost when the groups are orthogonal.',
  ['inputs', 'configurations'], 'all Kraus entries and inputs, n, all partitions into groups of equal and unequal sizes, dense and sparse',
  'tests use erasure-like channels with fixed group structure and compare a few entropies',
  [K, CH], [('DenseKraus.entropy_exchange, SparseKraus.entropy_exchange', K), ('orthogonal_krauss index bookkeeping', K)])
p('C05', 'Only trace preserving Kraus sets of the declared dimensions are accepted',
  'Building a channel from Kraus operators succeeds exactly when the sum of K^dagger K is the identity up to 1e-5 and the operators have the declared output and input dimensions (dimension to the power of the number of particles). Otherwise the construction fails with an error.',
  ['inputs', 'configurations'], 'all Kraus entries, operator counts, rectangular operators, declared dimensions and particle numbers',
  'tests build valid channels and two or three invalid ones; an acceptance test that inspects only part of the sum passes them',
  [K, CH], [('AnalyticQChan.__init__', CH), ('is_trace_perserving', K)])
p('C06', 'Serial concatenation is composition of channels',
  'A + B is the channel that applies B first and A second: its Kraus operators are all products A_i B_j, its input space is that of B and its output space that of A, in dimension and number of particles. Concatenation is refused when the spaces in between do not match.',
  ['inputs', 'configurations'], 'all Kraus entries, rectangular operators, dense and sparse, particle numbers',
  'tests concatenate dephasing-like maps that commute with each other, for which the order is invisible',
  [K, CH], [('AnalyticQChan.__add__', CH), ('serial_concatenate', K)])
p('C07', 'Parallel concatenation is the tensor product of channels',
  'A * B is the channel A tensor B: its Kraus operators are all Kronecker products of an operator of A with an operator of B in this order, and its particle numbers and dimensions describe the joint input and output spaces. Its action on every joint input is the tensor product map.',
  ['inputs', 'configurations'], 'all Kraus entries, dense and sparse, several particles on either side, arbitrary joint inputs',
  'tests multiply a channel with itself and sample product inputs, where order and shape mistakes cancel',
  [K, CH], [('AnalyticQChan.__mul__', CH), ('parallel_concatenate', K)])
p('C08', 'Average entanglement fidelity is the average of |Tr(K rho)|^2',
  'For probabilities p_i and states rho_i the average entanglement fidelity is the sum over i of p_i times the sum over Kraus operators K of |Tr(K rho_i)|^2. Dense, sparse and Choi-matrix channels agree.',
  ['inputs', 'configurations'], 'all Kraus entries, ensembles, dense/sparse/Choi representation',
  'the one test on it compares two implementations on one ensemble (and asserts that they differ)',
  [K, CH, CHOI], [('average_entanglement_fidelity', K), ('ChoiQutip.average_entanglement_fidelity', CHOI)])
p('C09', 'A Choi-matrix channel equals the Kraus channel behind it',
  'A channel object built from the Choi matrix of a set of Kraus operators maps every input to the Kraus sum, and its complementary output has the nonzero eigenvalues of the complementary channel of these operators, for input and output spaces of equal or different dimension and particle number. The linear constraints it reports for semidefinite programs express exactly trace preservation.',
  ['inputs', 'configurations'], 'all Choi matrices built from complex Kraus operators, all inputs, rectangular spaces',
  'tests use a handful of qubit channels with real Choi matrices, for which transposition and conjugation mistakes are invisible',
  [CHOI, CH], [('ChoiQutip.channel, complementary_channel, constraint_partial_trace', CHOI)])
p('C10', 'Choi matrices are accepted iff they are channels; Kraus operators reproduce them',
  'A Choi matrix is accepted exactly when it is Hermitian positive and its partial trace over the output is the identity on the declared input space. The Kraus operators reported for an accepted matrix reproduce it: the sum over operators of the outer product of each operator with itself is the given Choi matrix, for degenerate and rank deficient matrices too.',
  ['inputs', 'configurations'], 'Hermitian matrices in a neighbourhood of and outside the set of channels, spectra with zeros, shapes',
  'tests reconstruct a few named channels; eigenvector ordering, conjugation or scaling slips show only for generic spectra',
  [CHOI], [('ChoiQutip.__init__ acceptance', CHOI), ('kraus_operators', CHOI)])
p('C11', 'Coherent information is S(N(rho)) - S(N^c(rho))',
  'Entropy is minus the sum of e log2 e over the eigenvalues above the cut-off, of one matrix or of all matrices of a list of blocks. Coherent information for n uses is the entropy of the channel output minus the entropy of the complementary output, divided by n when the regularized value is asked for, for every representation and grouping of the Kraus operators.',
  ['inputs', 'configurations'], 'all spectra, all Kraus entries and inputs, n, representations',
  'tests check a few closed-form channels; dropped blocks, wrong logs bases on some eigenvalues, or sign mistakes on degenerate spectra are not sampled',
  [CH, K, CHOI], [('AnalyticQChan.entropy, coherent_information', CH)])
p('C12', 'Fidelity of a state with its image',
  'The fidelity of a state with its image under n uses of the channel is the trace of the square root of sqrt(rho) N(rho) sqrt(rho). It is defined for every density matrix, including pure and other singular ones.',
  ['inputs', 'configurations'], 'all spectra and eigenbases of the state including zeros, all Kraus entries, n, representations',
  'tests evaluate full-rank sampled states of one or two channels',
  [CH], [('AnalyticQChan.fidelity_two_states', CH)])
p('C13', 'Over-parameterization reaches exactly the states of bounded rank',
  'Every nonzero real vector of length 2 d r is mapped to the d x d matrix A A^dagger / Tr(A A^dagger), where the d x r matrix A is read row by row as alternating real and imaginary parts; hence a density matrix of rank at most r. Converting a state of rank at most r to a vector and back returns the state, vectors of the wrong length are refused, and the reported variable count and bounds admit every state.',
  ['inputs', 'configurations'], 'all real vectors, all states given by spectral decomposition, dimension and rank',
  'tests sample random vectors in full rank qubit and ququart cases and check trace and positivity only',
  [PA], [('OverParam', PA)])
p('C14', 'Cholesky parameterization reaches the states with lower triangular factor',
  'Every nonzero real vector is mapped to L L^dagger / Tr(L L^dagger) with L the d x r lower triangular matrix whose real diagonal comes first and whose strictly lower entries follow row by row as real and imaginary parts. Converting a state of rank r with positive definite leading block to a vector and back returns the state, vectors of the wrong length are refused, and the reported variable count and bounds (diagonal nonnegative) fit this layout.',
  ['inputs', 'configurations'], 'all real vectors, all states with a lower triangular factor, dimension and rank',
  'tests round-trip diagonal or full-rank examples; the order of the entries and smaller ranks are not covered',
  [PA], [('CholeskyParam', PA)])
p('C15', 'Standard-basis coordinates are a bijection onto Hermitian matrices',
  'The standard-basis parameterization maps real vectors of length d^2 one-to-one onto Hermitian d x d matrices and back. Randomly generated parameter vectors have the advertised length and stay within the requested bounds for every outcome of the random source.',
  ['inputs', 'configurations'], 'all real vectors and Hermitian matrices, all outcomes of the uniform random source, dimension',
  'tests convert a few matrices of dimension 2 and 4',
  [PA], [('StandardBasis', PA), ('random_vectors', PA)])
p('C16', 'The reported optimum is the best result found, with its own state and flag',
  'When several starting points are optimised, sequentially or in parallel processes, each starting point is used and the reported value is the best over all local optimisations: the largest coherent information or the smallest fidelity. The reported state and convergence flag belong to a run that attained this value, the objective handed to the optimiser evaluates the requested quantity at the state of the given parameter vector for the requested n with the right sign, and user samples, iteration limit and variable bounds reach the optimiser.',
  ['inputs', 'schedules', 'configurations'], 'all values, points and flags answered by the local optimiser, in any order; all starting points',
  'tests run the real optimiser to one optimum, where every starting point leads to the same value, so choosing the wrong run is invisible',
  [CO, CH], [('optimize_procedure, _optimize_samples_slsqp, _use_multi_processes, objective functions', CO)])
p('C17', 'The Lipschitz sampler keeps exactly the draws that can still be the maximum',
  'The sampler draws parameter vectors one by one and keeps a draw exactly when the best value seen so far does not exceed, for any kept sample, that sample\'s value plus the entrywise 1-norm distance of the two states. It evaluates the objective only for kept draws, returns them in order with their (sign-reversed) values, stops at the requested number of samples or the allowed number of tries, and reports success exactly when the requested number was reached.',
  ['inputs', 'histories'], 'all sequences of draws and objective values',
  'tests check only that some samples come back',
  [OP], [('initial_guesses_lipschitz', OP)])
p('C18', 'Optimisation requests are carried out as given or refused',
  'A parameterization may be given by name, class or instance with the same result, the dimension optimised over is that of the n-fold input, and minimum fidelity is taken over pure states. Samples found by the Lipschitz sampler are used in addition to the samples of the user, which are left unchanged; unknown parameterizations, optimizers, objectives or invalid process counts are refused with an error, and the result reports method, objective, use of the sampler, value and state.',
  ['inputs', 'configurations'], 'all request combinations, channel shapes and n, all draws and optimiser answers',
  'tests use two or three option combinations with a qubit channel',
  [CO, CH, PA], [('optimize_procedure argument handling', CO), ('AnalyticQChan.optimize_coherent, optimize_fidelity', CH)])
# CODES
exec(open(os.path.join(HERE, 'props_codes.py')).read()) if os.path.exists(os.path.join(HERE, 'props_codes.py')) else None


def attr(id, name):
    src = open(os.path.join(HERE, 'checks', id.lower() + '.py')).read()
    m = re.search(r'^%s = ((?:.|\n)*?)\n(?=\S)' % name, src, re.M)
    try:
        return eval(m.group(1), {})
    except Exception:
        return None


def main():
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps({k: v for k, v in d.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for d in P:
        i = d['id']
        if d['_na']:
            na.append(dict(property=i, reason=d['_na']))
            continue
        b = attr(i, 'BOUNDS')
        checks.append(dict(property=i, quick_cmd='./run.sh %s' % i, thorough_cmd='./run.sh %s --thorough' % i,
                           technique='symbolic execution of the real Python functions, assertions decided by z3',
                           level='model_checking',
                           level_note='bounded: %s. Reals instead of floats; environment stubs listed in the evidence; counterexamples are replayed on the unmodified code before they are reported.%s' % (b, ' ' + d['_note'] if d['_note'] else '')))
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
                   notes='No hooks in /repo. ./run.sh <ID> [--thorough] [-v] [--replay FILE]; see DESIGN.md'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
