"""The public functions of the library and the documented kind of each parameter (confirmed by reading)."""

API = {'_hafnian.nb_binom': {'n': 'int', 'k': 'int'},
 '_hafnian.precompute_binoms': {'max_binom': 'int'},
 '_hafnian.nb_ix': {'arr': 'array', 'rows': 'array', 'cols': 'array'},
 '_hafnian.matched_reps': {'reps': 'list'},
 '_hafnian.find_kept_edges': {'j': 'int', 'reps': 'list'},
 '_hafnian.f': {'A': 'array', 'n': 'int'},
 '_hafnian.f_loop': {'AX': 'array', 'AX_S': 'array', 'XD_S': 'array', 'D_S': 'array', 'n': 'int'},
 '_hafnian.f_loop_odd': {'AX': 'array',
                         'AX_S': 'array',
                         'XD_S': 'array',
                         'D_S': 'array',
                         'n': 'int',
                         'oddloop': 'real',
                         'oddVX_S': 'array'},
 '_hafnian.get_AX_S': {'kept_edges': 'array', 'A': 'array'},
 '_hafnian.get_submatrices': {'kept_edges': 'array', 'A': 'array', 'D': 'array', 'oddV': 'array'},
 '_hafnian.get_submatrix_batch_odd0': {'kept_edges': 'array', 'oddV0': 'array'},
 '_hafnian.get_Dsubmatrices': {'kept_edges': 'array', 'D': 'array'},
 '_hafnian.eigvals': {'M': 'array'},
 '_hafnian.loop_hafnian': {'A': 'array', 'D': 'array', 'reps': 'list', 'glynn': 'bool'},
 '_hafnian.input_validation': {'A': 'array', 'rtol': 'real', 'atol': 'real'},
 '_hafnian.bandwidth': {'A': 'array'},
 '_hafnian.powerset': {'iterable': 'list'},
 '_hafnian.reduction': {'A': 'array', 'rpt': 'list'},
 '_hafnian.hafnian': {'A': 'array',
                      'loop': 'bool',
                      'rtol': 'real',
                      'atol': 'real',
                      'approx': 'bool',
                      'num_samples': 'int',
                      'method': 'str'},
 '_hafnian.hafnian_sparse': {'A': 'array', 'D': 'list', 'loop': 'bool'},
 '_hafnian.hafnian_repeated': {'A': 'array',
                               'rpt': 'list',
                               'mu': 'array',
                               'loop': 'bool',
                               'rtol': 'real',
                               'atol': 'real',
                               'glynn': 'bool'},
 '_hafnian.hafnian_banded': {'A': 'array', 'loop': 'bool', 'rtol': 'real', 'atol': 'real'},
 '_hafnian.recursive_hafnian': {'A': 'array'},
 '_hafnian.solve': {'b': 'array', 's': 'int', 'w': 'real', 'g': 'int', 'n': 'int'},
 '_hafnian.hafnian_approx': {'A': 'array', 'num_samples': 'int'},
 '_hermite_multidimensional.hermite_multidimensional': {'R': 'array',
                                                        'cutoff': 'int',
                                                        'y': 'array',
                                                        'C': 'complex',
                                                        'renorm': 'bool',
                                                        'make_tensor': 'bool',
                                                        'modified': 'bool',
                                                        'rtol': 'real',
                                                        'atol': 'real'},
 '_hermite_multidimensional.interferometer': {'R': 'array',
                                              'cutoff': 'int',
                                              'C': 'complex',
                                              'renorm': 'bool',
                                              'make_tensor': 'bool',
                                              'rtol': 'real',
                                              'atol': 'real'},
 '_hermite_multidimensional.hafnian_batched': {'A': 'array',
                                               'cutoff': 'int',
                                               'mu': 'array',
                                               'rtol': 'real',
                                               'atol': 'real',
                                               'renorm': 'bool',
                                               'make_tensor': 'bool'},
 '_hermite_multidimensional.dec': {'tup': 'list', 'i': 'int'},
 '_hermite_multidimensional.remove': {'pattern': 'list'},
 '_hermite_multidimensional.grad_hermite_multidimensional': {'G': 'array',
                                                             'R': 'array',
                                                             'y': 'array',
                                                             'C': 'complex',
                                                             'renorm': 'bool',
                                                             'dtype': 'dtype'},
 '_low_rank_haf.partitions': {'r': 'int', 'n': 'int'},
 '_low_rank_haf.low_rank_hafnian': {'G': 'array'},
 '_montrealer.dec2bin': {'num': 'int', 'n': 'int'},
 '_montrealer.montrealer': {'Sigma': 'array'},
 '_montrealer.power_loop': {'Sigma': 'array', 'zeta': 'array', 'n': 'int'},
 '_montrealer.lmontrealer': {'Sigma': 'array', 'zeta': 'array'},
 '_montrealer.lmtl': {'A': 'array', 'zeta': 'array'},
 '_montrealer.mtl': {'A': 'array'},
 '_permanent.perm': {'A': 'array', 'method': 'str'},
 '_permanent.perm_ryser': {'M': 'array'},
 '_permanent.perm_bbfg': {'M': 'array'},
 '_permanent.permanent_repeated': {'A': 'array', 'rpt': 'list'},
 '_permanent.brs': {'A': 'array', 'E': 'array'},
 '_permanent.ubrs': {'A': 'array'},
 '_permanent.fock_prob': {'n': 'list', 'm': 'list', 'U': 'array'},
 '_permanent.fock_threshold_prob': {'n': 'list', 'd': 'list', 'T': 'array'},
 '_torontonian.tor_input_checks': {'A': 'array', 'loops': 'array'},
 '_torontonian.tor': {'A': 'array', 'recursive': 'bool'},
 '_torontonian.ltor': {'A': 'array', 'gamma': 'array', 'recursive': 'bool'},
 '_torontonian.threshold_detection_prob': {'mu': 'array',
                                           'cov': 'array',
                                           'det_pattern': 'array',
                                           'hbar': 'real',
                                           'atol': 'real',
                                           'rtol': 'real'},
 '_torontonian.numba_tor': {'O': 'array'},
 '_torontonian.quad_cholesky': {'L': 'array', 'Z': 'array', 'idx': 'int', 'mat': 'array'},
 '_torontonian.recursiveTor': {'L': 'array', 'modes': 'array', 'A': 'array', 'n': 'int'},
 '_torontonian.rec_torontonian': {'A': 'array'},
 '_torontonian.solve_triangular': {'L': 'array', 'y': 'array'},
 '_torontonian.recursiveLTor': {'L': 'array', 'modes': 'array', 'A': 'array', 'n': 'int', 'gammaL': 'array'},
 '_torontonian.rec_ltorontonian': {'A': 'array', 'gamma': 'array'},
 '_torontonian.numba_vac_prob': {'alpha': 'array', 'sigma': 'array'},
 '_torontonian.numba_ltor': {'O': 'array', 'gamma': 'array'},
 'charpoly.get_reflection_vector': {'matrix': 'array', 'k': 'int'},
 'charpoly.apply_householder': {'A': 'array', 'v': 'array', 'k': 'int'},
 'charpoly.reduce_matrix_to_hessenberg': {'matrix': 'array'},
 'charpoly.beta': {'H': 'array', 'i': 'int'},
 'charpoly.alpha': {'H': 'array', 'i': 'int'},
 'charpoly.hij': {'H': 'array', 'i': 'int', 'j': 'int'},
 'charpoly.mlo': {'i': 'int', 'j': 'int'},
 'charpoly.charpoly': {'H': 'array'},
 'charpoly.powertrace': {'H': 'array', 'n': 'int'},
 'csamples.rescale_adjacency_matrix_thermal': {'A': 'array',
                                               'n_mean': 'real',
                                               'check_positivity': 'bool',
                                               'check_symmetry': 'bool',
                                               'rtol': 'real',
                                               'atol': 'real'},
 'csamples.rescale_adjacency_matrix': {'A': 'array',
                                       'n_mean': 'real',
                                       'scale': 'real',
                                       'check_positivity': 'bool',
                                       'check_symmetry': 'bool',
                                       'rtol': 'real',
                                       'atol': 'real'},
 'csamples.generate_thermal_samples': {'ls': 'array', 'O': 'array', 'num_samples': 'int'},
 'decompositions.williamson': {'V': 'array', 'rtol': 'real', 'atol': 'real'},
 'decompositions.symplectic_eigenvals': {'cov': 'array'},
 'decompositions.blochmessiah': {'S': 'array'},
 'decompositions.takagi': {'A': 'array', 'svd_order': 'bool', 'rtol': 'real'},
 'decompositions.pre_iwasawa': {'S': 'array'},
 'decompositions.iwasawa': {'S': 'array'},
 'fock_gradients.displacement': {'r': 'real', 'phi': 'real', 'cutoff': 'int', 'dtype': 'dtype'},
 'fock_gradients.grad_displacement': {'T': 'array', 'r': 'real', 'phi': 'real'},
 'fock_gradients.squeezing': {'r': 'real', 'theta': 'real', 'cutoff': 'int', 'dtype': 'dtype'},
 'fock_gradients.grad_squeezing': {'T': 'array', 'r': 'real', 'phi': 'real'},
 'fock_gradients.two_mode_squeezing': {'r': 'real', 'theta': 'real', 'cutoff': 'int', 'dtype': 'dtype'},
 'fock_gradients.grad_two_mode_squeezing': {'T': 'array', 'r': 'real', 'theta': 'real'},
 'fock_gradients.beamsplitter': {'theta': 'real', 'phi': 'real', 'cutoff': 'int', 'dtype': 'dtype'},
 'fock_gradients.grad_beamsplitter': {'T': 'array', 'theta': 'real', 'phi': 'real'},
 'fock_gradients.mzgate': {'theta': 'real', 'phi': 'real', 'cutoff': 'int', 'dtype': 'dtype'},
 'fock_gradients.grad_mzgate': {'T': 'array', 'theta': 'real', 'phi': 'real'},
 'grouped_click_probabilities.grouped_click_probabilities': {'phn': 'array',
                                                             'chn': 'array',
                                                             't_matrix': 'array',
                                                             'num_samples': 'int',
                                                             'num_groups': 'int',
                                                             'seed': 'int'},
 'grouped_click_probabilities.grouped_click_probabilities_squeezed': {'input_sq': 'array',
                                                                      't_matrix': 'array',
                                                                      'num_samples': 'int',
                                                                      'num_groups': 'int',
                                                                      'seed': 'int'},
 'loop_hafnian_batch.add_batch_edges_even': {'fixed_edges': 'array'},
 'loop_hafnian_batch.add_batch_edges_odd': {'fixed_edges': 'array', 'oddmode': 'int'},
 'loop_hafnian_batch.loop_hafnian_batch': {'A': 'array',
                                           'D': 'array',
                                           'fixed_reps': 'list',
                                           'N_cutoff': 'int',
                                           'glynn': 'bool'},
 'loop_hafnian_batch_gamma.loop_hafnian_batch_gamma': {'A': 'array',
                                                       'D': 'array',
                                                       'fixed_reps': 'list',
                                                       'N_cutoff': 'int',
                                                       'glynn': 'bool'},
 'random.randnc': {},
 'random.random_covariance': {'N': 'int', 'hbar': 'real', 'pure': 'bool', 'block_diag': 'bool'},
 'random.random_symplectic': {'N': 'int', 'passive': 'bool', 'block_diag': 'bool', 'scale': 'real'},
 'random.random_interferometer': {'N': 'int', 'real': 'bool'},
 'random.random_block_interferometer': {'N': 'int', 'top_one': 'bool', 'real': 'bool'},
 'random.random_banded_interferometer': {'N': 'int', 'w': 'int', 'top_one_init': 'bool', 'real': 'bool'},
 'reference.partitions': {'s': 'list', 'singles': 'bool', 'pairs': 'bool'},
 'reference.T': {'n': 'int'},
 'reference.spm': {'s': 'list'},
 'reference.pmp': {'s': 'list'},
 'reference.hafnian': {'M': 'array', 'loop': 'bool'},
 'reference.mapper': {'x': 'list', 'objects': 'list'},
 'reference.bitstrings': {'n': 'int'},
 'reference.rpmp': {'s': 'list'},
 'reference.splitter': {'elem': 'list'},
 'reference.rspm': {'s': 'list'},
 'reference.mtl': {'A': 'array', 'loop': 'bool'},
 'samples.decompose_cov': {'cov': 'array', 'hbar': 'real'},
 'samples.mu_to_alpha': {'mu': 'array', 'hbar': 'real'},
 'samples.invert_permutation': {'p': 'array'},
 'samples.photon_means_order': {'mu': 'array', 'cov': 'array'},
 'samples.get_heterodyne_fanout': {'alpha': 'array', 'fanout': 'int'},
 'samples.generate_hafnian_sample': {'cov': 'array',
                                     'mean': 'array',
                                     'hbar': 'real',
                                     'cutoff': 'int',
                                     'max_photons': 'int'},
 'samples.hafnian_sample_state': {'cov': 'array',
                                  'samples': 'int',
                                  'mean': 'array',
                                  'hbar': 'real',
                                  'cutoff': 'int',
                                  'max_photons': 'int',
                                  'parallel': 'bool'},
 'samples.hafnian_sample_graph': {'A': 'array',
                                  'n_mean': 'real',
                                  'samples': 'int',
                                  'cutoff': 'int',
                                  'max_photons': 'int',
                                  'parallel': 'bool'},
 'samples.generate_torontonian_sample': {'cov': 'array',
                                         'mu': 'array',
                                         'hbar': 'real',
                                         'max_photons': 'int',
                                         'fanout': 'int',
                                         'cutoff': 'int'},
 'samples.torontonian_sample_state': {'cov': 'array',
                                      'samples': 'int',
                                      'mu': 'array',
                                      'hbar': 'real',
                                      'max_photons': 'int',
                                      'fanout': 'int',
                                      'cutoff': 'int',
                                      'parallel': 'bool'},
 'samples.torontonian_sample_graph': {'A': 'array',
                                      'n_mean': 'real',
                                      'samples': 'int',
                                      'max_photons': 'int',
                                      'fanout': 'int',
                                      'cutoff': 'int',
                                      'parallel': 'bool'},
 'samples.hafnian_sample_classical_state': {'cov': 'array',
                                            'samples': 'int',
                                            'mean': 'array',
                                            'hbar': 'real',
                                            'atol': 'real',
                                            'cutoff': 'int'},
 'samples.torontonian_sample_classical_state': {'cov': 'array',
                                                'samples': 'int',
                                                'mean': 'array',
                                                'hbar': 'real',
                                                'atol': 'real'},
 'samples.photon_number_sampler': {'probabilities': 'array', 'num_samples': 'int', 'out_of_bounds': 'bool'},
 'samples.seed': {'seed_val': 'int'},
 'samples.hafnian_sample_graph_rank_one': {'G': 'array', 'n_mean': 'real', 'samples': 'int'},
 'symplectic.expand': {'S': 'array', 'modes': 'list', 'N': 'int'},
 'symplectic.expand_vector': {'alpha': 'complex', 'mode': 'int', 'N': 'int', 'hbar': 'real'},
 'symplectic.expand_passive': {'T': 'array', 'modes': 'array', 'N': 'int'},
 'symplectic.reduced_state': {'mu': 'array', 'cov': 'array', 'modes': 'list'},
 'symplectic.vacuum_state': {'modes': 'int', 'hbar': 'real', 'dtype': 'dtype'},
 'symplectic.squeezing': {'r': 'array', 'phi': 'array', 'dtype': 'dtype'},
 'symplectic.two_mode_squeezing': {'r': 'real', 'phi': 'real', 'dtype': 'dtype'},
 'symplectic.interferometer': {'U': 'array'},
 'symplectic.passive_transformation': {'mu': 'array', 'cov': 'array', 'T': 'array', 'hbar': 'real'},
 'symplectic.loss': {'mu': 'array', 'cov': 'array', 'T': 'real', 'mode': 'int', 'nbar': 'real', 'hbar': 'real'},
 'symplectic.mean_photon_number': {'mu': 'array', 'cov': 'array', 'hbar': 'real'},
 'symplectic.beam_splitter': {'theta': 'real', 'phi': 'real', 'dtype': 'dtype'},
 'symplectic.rotation': {'theta': 'real', 'dtype': 'dtype'},
 'symplectic.sympmat': {'N': 'int', 'dtype': 'dtype'},
 'symplectic.is_symplectic': {'S': 'array', 'rtol': 'real', 'atol': 'real'},
 'symplectic.xxpp_to_xpxp': {'S': 'array'},
 'symplectic.xpxp_to_xxpp': {'S': 'array'},
 'quantum.adjacency_matrices.adj_scaling_torontonian': {'A': 'array', 'c_mean': 'real'},
 'quantum.adjacency_matrices.adj_scaling': {'A': 'array', 'n_mean': 'real'},
 'quantum.adjacency_matrices.adj_to_qmat': {'A': 'array', 'n_mean': 'real'},
 'quantum.conversions.reduced_gaussian': {'mu': 'array', 'cov': 'array', 'modes': 'list'},
 'quantum.conversions.Xmat': {'N': 'int'},
 'quantum.conversions.Qmat': {'cov': 'array', 'hbar': 'real'},
 'quantum.conversions.Covmat': {'Q': 'array', 'hbar': 'real'},
 'quantum.conversions.Amat': {'cov': 'array', 'hbar': 'real', 'cov_is_qmat': 'bool'},
 'quantum.conversions.complex_to_real_displacements': {'mu': 'array', 'hbar': 'real'},
 'quantum.conversions.real_to_complex_displacements': {'beta': 'array', 'hbar': 'real'},
 'quantum.distinguishable_squeezers.sample': {'T': 'array', 'rs': 'array', 'n_samples': 'int', 'input_cutoff': 'int'},
 'quantum.distinguishable_squeezers.number_means': {'T': 'array', 'rs': 'array'},
 'quantum.distinguishable_squeezers.number_cov': {'T': 'array', 'rs': 'array'},
 'quantum.entanglement.get_partition': {'modes_A': 'list', 'split': 'int', 'M': 'int'},
 'quantum.entanglement.vonneumann_entropy': {'cov': 'array', 'hbar': 'real'},
 'quantum.entanglement.entanglement_entropy': {'cov': 'array', 'modes_A': 'list', 'split': 'int', 'hbar': 'real'},
 'quantum.entanglement.log_negativity': {'cov': 'array', 'modes_A': 'list', 'split': 'int', 'hbar': 'real'},
 'quantum.fock_tensors.pure_state_amplitude': {'mu': 'array',
                                               'cov': 'array',
                                               'i': 'list',
                                               'include_prefactor': 'bool',
                                               'tol': 'real',
                                               'hbar': 'real',
                                               'check_purity': 'bool'},
 'quantum.fock_tensors.state_vector': {'mu': 'array',
                                       'cov': 'array',
                                       'post_select': 'dict',
                                       'normalize': 'bool',
                                       'cutoff': 'int',
                                       'hbar': 'real',
                                       'check_purity': 'bool'},
 'quantum.fock_tensors.density_matrix_element': {'mu': 'array',
                                                 'cov': 'array',
                                                 'i': 'list',
                                                 'j': 'list',
                                                 'include_prefactor': 'bool',
                                                 'tol': 'real',
                                                 'hbar': 'real'},
 'quantum.fock_tensors.density_matrix': {'mu': 'array',
                                         'cov': 'array',
                                         'post_select': 'dict',
                                         'normalize': 'bool',
                                         'cutoff': 'int',
                                         'hbar': 'real'},
 'quantum.fock_tensors.fock_tensor': {'S': 'array',
                                      'alpha': 'array',
                                      'cutoff': 'int',
                                      'choi_r': 'real',
                                      'check_symplectic': 'bool',
                                      'sf_order': 'bool',
                                      'rtol': 'real',
                                      'atol': 'real'},
 'quantum.fock_tensors.probabilities': {'mu': 'array',
                                        'cov': 'array',
                                        'cutoff': 'int',
                                        'parallel': 'bool',
                                        'hbar': 'real',
                                        'rtol': 'real',
                                        'atol': 'real'},
 'quantum.fock_tensors.loss_mat': {'eta': 'real', 'cutoff': 'int'},
 'quantum.fock_tensors.update_probabilities_with_loss': {'etas': 'list', 'probs': 'array'},
 'quantum.fock_tensors.update_probabilities_with_noise': {'probs_noise': 'list', 'probs': 'array'},
 'quantum.fock_tensors.find_classical_subsystem': {'cov': 'array', 'hbar': 'real', 'atol': 'real'},
 'quantum.fock_tensors.tvd_cutoff_bounds': {'mu': 'array',
                                            'cov': 'array',
                                            'cutoff': 'int',
                                            'hbar': 'real',
                                            'check_is_valid_cov': 'bool',
                                            'rtol': 'real',
                                            'atol': 'real'},
 'quantum.fock_tensors.n_body_marginals': {'mean': 'array',
                                           'cov': 'array',
                                           'cutoff': 'int',
                                           'n': 'int',
                                           'hbar': 'real'},
 'quantum.gaussian_checks.is_valid_cov': {'cov': 'array', 'hbar': 'real', 'rtol': 'real', 'atol': 'real'},
 'quantum.gaussian_checks.is_pure_cov': {'cov': 'array', 'hbar': 'real', 'rtol': 'real', 'atol': 'real'},
 'quantum.gaussian_checks.is_classical_cov': {'cov': 'array', 'hbar': 'real', 'atol': 'real'},
 'quantum.gaussian_checks.fidelity': {'mu1': 'array',
                                      'cov1': 'array',
                                      'mu2': 'array',
                                      'cov2': 'array',
                                      'hbar': 'real',
                                      'rtol': 'real',
                                      'atol': 'real'},
 'quantum.gaussian_checks.is_symplectic': {'S': 'array', 'rtol': 'real', 'atol': 'real'},
 'quantum.means_and_variances.photon_number_mean': {'mu': 'array', 'cov': 'array', 'j': 'int', 'hbar': 'real'},
 'quantum.means_and_variances.photon_number_mean_vector': {'mu': 'array', 'cov': 'array', 'hbar': 'real'},
 'quantum.means_and_variances.photon_number_covar': {'mu': 'array',
                                                     'cov': 'array',
                                                     'j': 'int',
                                                     'k': 'int',
                                                     'hbar': 'real'},
 'quantum.means_and_variances.photon_number_covmat': {'mu': 'array', 'cov': 'array', 'hbar': 'real'},
 'quantum.means_and_variances.photon_number_expectation': {'mu': 'array',
                                                           'cov': 'array',
                                                           'modes': 'list',
                                                           'hbar': 'real'},
 'quantum.means_and_variances.photon_number_squared_expectation': {'mu': 'array',
                                                                   'cov': 'array',
                                                                   'modes': 'list',
                                                                   'hbar': 'real'},
 'quantum.means_and_variances.normal_ordered_expectation': {'mu': 'array',
                                                            'cov': 'array',
                                                            'rpt': 'list',
                                                            'hbar': 'real'},
 'quantum.means_and_variances.s_ordered_expectation': {'mu': 'array',
                                                       'cov': 'array',
                                                       'rpt': 'list',
                                                       'hbar': 'real',
                                                       's': 'real'},
 'quantum.means_and_variances.mean_clicks': {'cov': 'array', 'hbar': 'real'},
 'quantum.means_and_variances.variance_clicks': {'cov': 'array', 'hbar': 'real'},
 'quantum.means_and_variances.photon_number_moment': {'mu': 'array',
                                                      'cov': 'array',
                                                      'indices': 'dict',
                                                      'hbar': 'real'},
 'quantum.means_and_variances.partition': {'collection': 'list'},
 'quantum.means_and_variances.photon_number_cumulant': {'mu': 'array',
                                                        'cov': 'array',
                                                        'modes': 'array',
                                                        'hbar': 'real'},
 'quantum.means_and_variances.click_cumulant': {'mu': 'array', 'cov': 'array', 'modes': 'array', 'hbar': 'real'},
 'quantum.photon_number_distributions.pure_state_distribution': {'cov': 'array',
                                                                 'cutoff': 'int',
                                                                 'hbar': 'real',
                                                                 'padding_factor': 'int'},
 'quantum.photon_number_distributions.total_photon_number_distribution': {'n': 'int',
                                                                          'k': 'int',
                                                                          's': 'real',
                                                                          'eta': 'real',
                                                                          'pref': 'real'},
 'quantum.photon_number_distributions.characteristic_function': {'k': 'int',
                                                                 's': 'real',
                                                                 'eta': 'real',
                                                                 'mu': 'real',
                                                                 'max_iter': 'int',
                                                                 'delta': 'real',
                                                                 'poly_corr': 'int'}}


def roots(prog):
    """The frozen public functions found in the current tree: [(FuncInfo, kinds)], [missing names]."""
    out, missing = [], []
    for dotted, kinds in API.items():
        mod, _, name = dotted.rpartition(".")
        info = prog.find(dotted) if mod else None
        if info is None:
            c = prog.find_by_name(name, prefer=mod.split(".")[-1])
            c = [x for x in c if x.module.name.split(".")[-1] == mod.split(".")[-1]] or c
            info = c[0] if len(c) >= 1 else None
        if info is None:
            missing.append(dotted)
        else:
            out.append((info, kinds))
    return out, missing
